# encoding: utf-8
"""What a delivered program has to look like, judged without the code under test.

Every function returns a list of (category, text).  Categories:
verbatim  a line was changed, lost, duplicated or moved without reason
rewrite   a rewritten line lost its comment or a parameter nobody asked to change
position  the head goes somewhere else
extrusion the filament pushed differs
pause / temperature / arc / stretch  the modification itself is wrong
"""
import math
import re

from .printer import Cmd, MOVES, Printer, arc_geometry, comments, strip_comment, words

MARKERS = re.compile(r"(?: ?; ?stretch-[a-z]+(?:-[a-z]+)*(?: stretch-[a-z]+(?:-[a-z]+)*)*)+$")
PAUSE = "M226"


def text_lines(data):
    """The lines a tool sees: blanks around lines and blank lines don't count."""
    if isinstance(data, bytes):
        data = data.decode("utf-8", "surrogateescape")
    data = data.replace("\r\n", "\n").replace("\r", "\n")
    return [s for s in (line.strip() for line in data.split("\n")) if s]


def clean(lines):
    return [s for s in (line.strip() for line in lines) if s]


def first_difference(a, b):
    a, b = text_lines(a or b""), text_lines(b or b"")
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "line %d is %r instead of %r" % (n, y, x)
    return "%d lines instead of %d" % (len(b), len(a))


def _cmd_names(lines):
    return [c.name for c in map(Cmd, lines)]


def lost_lines(sc, out):
    """First line of the original without counterpart in the delivered program, judged by commands only."""
    orig = clean(sc["program"])
    got = [MARKERS.sub("", s) for s in text_lines(out)]
    arcs = sc["tool"] == "gcode_optimize_arcs"
    relative = sc["tool"] in ("gcode_stretch", "stretch_plugin") or "-e" in sc.get("args", ())
    j = 0
    names = _cmd_names(got)
    for line, name in zip(orig, _cmd_names(orig)):
        if arcs and name in ("G0", "G1"):
            continue
        while j < len(got):
            hit = got[j] == line or (name is not None and (names[j] == name or (
                relative and name == "M82" and names[j] == "M83")))
            j += 1
            if hit:
                break
        else:
            return repr(line)
    return None


# ---------------------------------------------------------------------------
def same_words_but(a, b, changeable):
    """Two lines agree in command, parameters and comments, `changeable` letters may have other values."""
    wa, wb = words(a), words(b)
    if not wa or not wb or wa[0] != wb[0]:
        return "the command"
    if sorted(w[0] for w in wa) != sorted(w[0] for w in wb):
        return "the set of parameters"
    da = {}
    for letter, text in wa[1:]:
        da.setdefault(letter, []).append(text)
    db = {}
    for letter, text in wb[1:]:
        db.setdefault(letter, []).append(text)
    for letter in da:
        if letter in changeable:
            continue
        xs, ys = da[letter], db[letter]
        for x, y in zip(xs, ys):
            if x == y:
                continue
            try:
                if abs(float(x) - float(y)) <= (0.0000051 if letter == "E" else 0.00051):
                    continue
            except ValueError:
                pass
            return "parameter %s" % letter
    ca = "".join(comments(a)).split()
    cb = "".join(comments(b)).split()
    if ca != cb:
        return "the comment"
    return None


class Pair(object):
    __slots__ = ("orig", "out", "inserted", "index")

    def __init__(self, index, orig, out, inserted):
        self.index, self.orig, self.out, self.inserted = index, orig, out, inserted


def align(orig, out, reason, insertable, replace):
    """Pairs every original line with a delivered one.

    reason(i, line) -> letters whose value may change, None when the line has to come out verbatim
    insertable(text) -> whether the tool may add this line
    replace(line, text) -> whether text may stand for line although the command differs
    """
    bad = []
    pairs = []
    j = 0
    for i, line in enumerate(orig):
        inserted = []
        letters = reason(i, line)
        while True:
            if j >= len(out):
                bad.append(("verbatim", "line %d %r and all after it are missing" % (i, line)))
                return pairs, bad, []
            text = out[j]
            if text == line:
                break
            if replace(line, text):
                break
            if letters is not None:
                why = same_words_but(line, text, letters)
                if why is None:
                    break
                if Cmd(text).name == Cmd(line).name:
                    bad.append(("rewrite", "line %d %r became %r, which changes %s" % (i, line, text, why)))
                    return pairs, bad, []
            if insertable(text):
                inserted.append(text)
                j += 1
                continue
            bad.append(("verbatim", "line %d %r became %r" % (i, line, text)))
            return pairs, bad, []
        pairs.append(Pair(i, line, out[j], inserted))
        j += 1
    rest = out[j:]
    if any(not insertable(t) for t in rest):
        bad.append(("verbatim", "additional lines at the end: %r" % rest[:3]))
    return pairs, bad, rest


def modes(lines):
    """Positioning state each line is executed in: (absolute positioning selected, rel, rel_e)."""
    p = Printer()
    known = False
    res = []
    for line in lines:
        c = Cmd(line)
        res.append((known, p.rel, p.rel_e, c))
        if c.name in ("G90", "G91"):
            known = True
        p.execute(c)
    return res


# ---------------------------------------------------------------------------
def check_mod(orig, out, x=0.0, y=0.0, e=False, pause=None):
    orig, out = clean(orig), clean(out)
    state = modes(orig)

    def reason(i, line):
        known, rel, rel_e, c = state[i]
        if c.name not in MOVES:
            return None
        letters = set()
        if known and not rel:
            if x and "X" in c.args:
                letters.add("X")
            if y and "Y" in c.args:
                letters.add("Y")
        if e and not rel_e and "E" in c.args:
            letters.add("E")
        return letters or None

    def insertable(text):
        return (e and text == "M83") or (pause is not None and text == PAUSE)

    def replace(line, text):
        return e and Cmd(line).name == "M82" and Cmd(text).name == "M83" and len(words(text)) == 1

    pairs, bad, rest = align(orig, out, reason, insertable, replace)
    if bad:
        return bad
    bad += lockstep(pairs, x, y, e)
    if pause is not None:
        bad += check_pause(orig, pairs, rest, pause if isinstance(pause, list) else [pause])
    return bad


def lockstep(pairs, x, y, e, tol=0.0011):
    """Two printers execute the programs side by side."""
    bad = []
    p, q = Printer(), Printer()
    known = False
    placed = {"X": False, "Y": False}
    for pr in pairs:
        for text in pr.inserted:
            q.run(text)
        c, d = Cmd(pr.orig), Cmd(pr.out)
        before_q = q.e - q.oe
        rel_before = p.rel
        mp, mq = p.execute(c), q.execute(d)
        if c.name in ("G90", "G91"):
            known = True
        if mp is not None and known and not rel_before:
            for axis in "XY":
                if axis in c.args:
                    placed[axis] = True
        if c.name == "G28":
            axes = [a for a in "XYZ" if a in c.letters] or list("XYZ")
            for axis in "XY":
                if axis in axes:
                    placed[axis] = False
        for axis, off in (("X", x), ("Y", y)):
            a = getattr(p, axis.lower())
            b = getattr(q, axis.lower())
            want = off if placed[axis] else None
            scale = 25.4 if p.inch else 1.0
            if want is not None and abs(b - a - want) > tol * scale:
                bad.append(("position", "after line %d %r -> %r: %s is %.4f away from the original position, not %.4f"
                            % (pr.index, pr.orig, pr.out, axis, b - a, want)))
                return bad
            if want is None and min(abs(b - a), abs(b - a - off)) > tol * scale:
                bad.append(("position", "after line %d %r -> %r: %s is %.4f away from the original position"
                            % (pr.index, pr.orig, pr.out, axis, b - a)))
                return bad
        for name in ("z", "f", "rel", "inch", "tool"):
            a, b = getattr(p, name), getattr(q, name)
            if a != b and (isinstance(a, bool) or abs(a - b) > 0.0006):
                bad.append(("rewrite", "after line %d %r -> %r: %s is %r instead of %r"
                            % (pr.index, pr.orig, pr.out, name, b, a)))
                return bad
        if not e and p.rel_e != q.rel_e:
            bad.append(("rewrite", "after line %d %r -> %r: extrusion mode differs" % (pr.index, pr.orig, pr.out)))
            return bad
        if mp is not None:
            de, df = mp["de"], mq["de"] if mq else 0.0
            if abs(de - df) > 1.6e-5 * (25.4 if p.inch else 1.0):
                bad.append(("extrusion", "line %d %r -> %r pushes %.5f instead of %.5f of filament"
                            % (pr.index, pr.orig, pr.out, df, de)))
                return bad
            if e and mq["has_e"] and not q.rel_e and abs(before_q) > 1e-5:
                bad.append(("mode", "line %d %r -> %r still depends on the absolute extruder position %.5f"
                            % (pr.index, pr.orig, pr.out, before_q)))
                return bad
            if mp["name"] in ("G2", "G3") and (abs(mp["i"] - mq["i"]) > 0.0006 or abs(mp["j"] - mq["j"]) > 0.0006):
                bad.append(("position", "line %d %r -> %r: the centre of the arc moved" % (pr.index, pr.orig, pr.out)))
                return bad
    return bad


def heights(lines, digits=4):
    """[(z after the line, line changes z, line extrudes at a height the program chose)]."""
    p = Printer()
    res = []
    known = False
    for line in lines:
        z = p.z
        c = Cmd(line)
        m = p.execute(c)
        before, known = known, known or "Z" in c.args and (m is not None or c.name == "G92")
        res.append((round(p.z, digits), abs(p.z - z) > 1e-9 or known != before, bool(known and m and m["de"] > 1e-9)))
    return res


def printed_heights(hs):
    return sorted(set(round(z, 2) for z, _, ext in hs if ext))


def check_pause(orig, pairs, rest, layers):
    hs = heights(orig, 6)
    zs = printed_heights(hs)
    found = []
    for pr in pairs:
        found += [pr.index] * pr.inserted.count(PAUSE)
    found += [len(orig)] * rest.count(PAUSE)
    there = sorted(set(n for n in layers if 0 <= n < len(zs)))
    if not there:
        if found:
            return [("pause", "there is no printed layer %s, but the program pauses at line %s" % (layers, found))]
        return []
    starts = {}
    for layer in there:
        target = zs[layer]
        first = next(i for i, (z, _, ext) in enumerate(hs) if ext and round(z, 2) == target)
        # the height may have been left and reached again before extruding: the last arrival starts the layer
        starts[layer] = max([i for i in range(first + 1) if hs[i][1] and round(hs[i][0], 2) == target] or [0])
    if len(found) != len(there):
        return [("pause", "printed layers %s begin at lines %s (heights %s), but the program pauses at %s" % (
            there, [starts[n] for n in there], [zs[n] for n in there], found))]
    for start, at in zip(sorted(starts.values()), found):
        if at != start:
            return [("pause", "a printed layer of %s begins at line %d %r (height %.2f), but the pause is before line %d %r"
                     % (layers, start, orig[start], hs[start][0], at, orig[at] if at < len(orig) else "end"))]
    return []


# ---------------------------------------------------------------------------
TEMP = re.compile(r"^M104 S(-?[0-9]+(?:\.[0-9]+)?)$")


def check_tempcal(orig, out, start, end, min_z, steps, continuous):
    """Heights which are the minimum height but for rounding may be above it or not."""
    eps = 3e-4 if any(Cmd(line).name == "G20" for line in orig) else 1e-6
    bad = tempcal_above(orig, out, start, end, min_z + eps, steps, continuous)
    if bad and bad[0][0] == "temperature" and tempcal_above(orig, out, start, end, min_z - eps, steps, continuous) == []:
        return []
    return bad


def too_low(orig, min_z):
    """Whether a gradient may be refused: there are not two heights above the minimum."""
    orig = clean(orig)
    hs = heights(orig)
    inches = any(Cmd(line).name == "G20" for line in orig)
    zmax = max([z for z, _, e in hs if e] + [0.0])
    above = [z for z, changed, _ in hs if changed and z > min_z + (3e-4 if inches else 1e-6)]
    return not above or min(above) >= zmax - (2e-3 if inches else 1e-6)


def tempcal_above(orig, out, start, end, min_z, steps, continuous):
    orig, out = clean(orig), clean(out)
    bad = []
    inserted = []                     # (index of the following original line, temperature)
    i = 0
    for text in out:
        if i < len(orig) and text == orig[i]:
            i += 1
            continue
        m = TEMP.match(text)
        if not m:
            return [("verbatim", "line %d %r became %r" % (i, orig[i] if i < len(orig) else "end", text))]
        inserted.append((i, float(m.group(1))))
    if i < len(orig):
        return [("verbatim", "line %d %r and all after it are missing" % (i, orig[i]))]
    hs = heights(orig)
    inches = any(Cmd(line).name == "G20" for line in orig)
    ext = [z for z, _, e in hs if e]
    zmax = max(ext + [0.0])
    above = [z for z, changed, _ in hs if changed and z > min_z]
    zmin = min(above) if above else None
    if inches and zmin is not None and abs(zmax - zmin) < 2e-3:
        return []                     # a height reached by different roundings is no gradient worth judging
    if zmin is None or zmin >= zmax:
        return [("temperature", "there is no height to change the temperature along, but the tool reports success")]
    lo, hi = min(start, end), max(start, end)
    near = 0.0511 + (6e-4 * (hi - lo) / (zmax - zmin) if inches else 0.0)

    def wanted(z):
        """Temperatures which are right at height z."""
        frac = (z - zmin) / (zmax - zmin)
        if continuous:
            return [start + (end - start) * frac]
        n = int(steps)
        s = frac * (n + 1)
        # heights are rounded, those given in inches twice
        tol = 3e-4 / (zmax - zmin) * (n + 1) if inches else 1e-6
        ks = set(min(max(int(math.floor(s + d)), 0), n) for d in (-tol, 0, tol))
        return [start + (end - start) * k / float(n) for k in ks]

    last = None
    by_z = []
    for i, t in inserted:
        if not (150 <= t <= 250 and lo - 0.051 <= t <= hi + 0.051):
            bad.append(("temperature", "temperature %.1f before line %d is out of range" % (t, i)))
            return bad
        if last is not None and t == last:
            bad.append(("temperature", "the command before line %d repeats temperature %.1f" % (i, t)))
            return bad
        if i >= len(orig) or not hs[i][1]:
            bad.append(("temperature", "temperature command in the middle of a layer, before line %d %r" % (
                i, orig[i] if i < len(orig) else "end")))
            return bad
        z = hs[i][0]
        if z < zmin - 1e-6 or z > zmax + 1e-6:
            bad.append(("temperature", "temperature command at height %.3f, outside %.3f-%.3f" % (z, zmin, zmax)))
            return bad
        if all(abs(t - w) > near for w in wanted(z)):
            bad.append(("temperature", "temperature %.1f at height %.3f instead of %s" % (
                t, z, " or ".join("%.1f" % w for w in wanted(z)))))
            return bad
        by_z.append((z, t))
        last = t
    by_z.sort()
    for (z0, t0), (z1, t1) in zip(by_z, by_z[1:]):
        if z1 > z0 and (t1 - t0) * (end - start) < -1e-9:
            bad.append(("temperature", "temperature %.1f at %.3f, but %.1f at %.3f" % (t0, z0, t1, z1)))
            return bad
    # what is printed gets its temperature
    at = dict(inserted)
    current = None
    for i in range(len(orig)):
        if i in at:
            current = at[i]
        z, _, e = hs[i]
        if e and zmin - 1e-9 <= z <= zmax + 1e-9:
            ws = wanted(z)
            if all(150 + near - 0.051 <= round(w, 1) <= 250 - near + 0.051 for w in ws) and (current is None or all(
                    abs(current - w) > near for w in ws)):
                bad.append(("temperature", "line %d %r extrudes at height %.3f with temperature %s instead of %s" % (
                    i, orig[i], z, current, " or ".join("%.1f" % w for w in ws))))
                return bad
    return bad


# ---------------------------------------------------------------------------
MIN_RUN = 8
PATH_TOL = 0.05


def angle_at(px, py, cx, cy, a0, sweep):
    """Position of a point along an arc, in radian from its start."""
    a = math.atan2(py - cy, px - cx) - a0
    if sweep > 0:
        while a < -1e-3:
            a += 2 * math.pi
        while a > 2 * math.pi + 1e-3:
            a -= 2 * math.pi
    else:
        while a > 1e-3:
            a -= 2 * math.pi
        while a < -2 * math.pi - 1e-3:
            a += 2 * math.pi
    return a


MAX_RADIUS = 200.0


def check_arcs(orig, out):
    orig, out = clean(orig), clean(out)
    p, q = Printer(), Printer()
    i = j = 0
    arcs = 0
    while i < len(orig) or j < len(out):
        if i < len(orig) and j < len(out) and orig[i] == out[j]:
            p.run(orig[i])
            q.run(out[j])
            i += 1
            j += 1
            continue
        if j >= len(out):
            return [("verbatim", "line %d %r and all after it are missing" % (i, orig[i]))], arcs
        c = Cmd(out[j])
        if c.name not in ("G2", "G3"):
            return [("verbatim", "line %d %r became %r" % (i, orig[i] if i < len(orig) else "end", out[j]))], arcs
        res = arc_step(orig, out, i, j, p, q)
        if isinstance(res, tuple):
            i, j = res
            arcs += 1
            continue
        return [("arc", "%r %s" % (out[j], res))], arcs
    return [], arcs


def arc_step(orig, out, i, j, p, q):
    """The run of moves an arc stands for; returns the new indices or what is wrong."""
    if p.rel:
        return "replaces moves in relative positioning mode"
    start = (q.x, q.y, q.z)
    if max(abs(a - b) for a, b in zip(start, (p.x, p.y, p.z))) > 0.0011:
        return "does not start where the replaced moves did"
    e_off = (q.e - q.oe) - (p.e - p.oe)
    m = q.run(out[j])
    j += 1
    follow = out[j] if j < len(out) else None
    reset = None
    if follow is not None and Cmd(follow).name == "G92" and set(Cmd(follow).args) == {"E"} and (
            i >= len(orig) or follow not in orig[i:i + 400]):
        reset = follow
        q.run(follow)
        j += 1
    moves = []
    k = i
    best = None
    while k < len(orig):
        c = Cmd(orig[k])
        if c.name not in ("G0", "G1"):
            break
        moves.append(p.execute(c))
        k += 1
        if math.hypot(p.x - q.x, p.y - q.y) <= 0.0016 and len(moves) >= 1:
            nxt = out[j] if j < len(out) else None
            ok = (k == len(orig) and nxt is None) or (k < len(orig) and nxt is not None and (
                orig[k] == nxt or Cmd(nxt).name in ("G2", "G3")))
            if ok:
                best = k
                break
    if best is None:
        return "does not end where a run of moves from line %d on does" % i
    if len(moves) < MIN_RUN:
        return "replaces only %d moves from line %d on" % (len(moves), i)
    zs = [mv["to"][2] for mv in moves] + [moves[0]["from"][2]]
    if max(zs) - min(zs) > 1e-6 or abs(q.z - p.z) > 1e-6:
        return "replaces moves at different heights from line %d on" % i
    if len(set(round(mv["f"], 3) for mv in moves)) > 1 or abs(m["f"] - moves[0]["f"]) > 0.0006 or abs(q.f - p.f) > 0.0006:
        return "changes the feed rate of the moves from line %d on" % i
    (cx, cy), r0, r1, a0, sweep = arc_geometry(m)
    if r0 < 1e-6 or abs(r0 - r1) > PATH_TOL:
        return "is not an arc around its centre (radius %.4f at the start, %.4f at the end)" % (r0, r1)
    if r0 > MAX_RADIUS + 0.01:
        return "has a radius of %.3f" % r0
    prev = 0.0
    worst = 1.0
    total = 0.0
    turns, flows = [], []
    for n, mv in enumerate(moves):
        x, y = mv["to"][:2]
        d = abs(math.hypot(x - cx, y - cy) - r0)
        if d > PATH_TOL:
            return "is %.4f away from point %d (line %d) of the replaced moves" % (d, n, i + n)
        a = angle_at(x, y, cx, cy, a0, sweep)
        if n == len(moves) - 1:
            # the last point is where the arc ends, which may be a complete turn
            a = sweep
        if abs(a) > abs(sweep) + (PATH_TOL + 0.01) / r0 or abs(a) < abs(prev) - 0.02 / r0:
            return "does not pass the replaced points in order (point %d, line %d)" % (n, i + n)
        alpha = abs(a - prev)
        if alpha > 1e-9:
            worst = max(worst, alpha / (2 * math.sin(min(alpha, math.pi) / 2)))
        chord = math.hypot(x - mv["from"][0], y - mv["from"][1])
        total += chord
        prev = a
        turns.append(alpha)
        if mv["has_e"] and chord > 1e-9:
            flows.append((n, mv["de"] / chord, 3e-5 / chord))
    # (where the points are within the permitted distance from the circle, and numbers are rounded)
    if max(turns) - sum(turns) / len(turns) > math.radians(5.2) + 2 * 0.017 / r0:
        return "replaces a move which turns %.1f degrees, the average is %.1f" % (
            math.degrees(max(turns)), math.degrees(sum(turns) / len(turns)))
    de = sum(mv["de"] for mv in moves)
    if de < -1e-4 and de < -1e-5 * total:
        return "replaces moves which retract %.5f of filament" % -de
    if any(mv["has_e"] for mv in moves) != m["has_e"]:
        return "extrudes although the replaced moves don't, or the other way round"
    for n, flow, tol in flows:
        if abs(flow - de / total) > abs(de / total) * 0.152 + tol:
            return "replaces a move (line %d) with a flow of %.5f, the average is %.5f" % (i + n, flow, de / total)
    # the points may be as far from the circle as the detection permits, which matters for tiny ones
    tol = 2e-5 + abs(de) * (0.002 + 0.015 / r0)
    # an arc is longer than chords, but it may be shorter than a path through points off the circle
    ratio = abs(sweep) * r0 / total if total > 1e-9 else 1.0
    corr = de * max(worst, ratio)
    least, most = sorted((de * min(1.0, ratio), corr))
    if not (least - tol <= m["de"] <= most + tol) and not (least - tol <= m["de"] + e_off <= most + tol):
        return "pushes %.5f of filament, the replaced moves %.5f, at most %.5f with the arc-length correction" % (
            m["de"], de, corr)
    logical = (q.e - q.oe) - (p.e - p.oe)
    if m["has_e"] and p.rel_e:
        # relative extrusion: the position follows the filament, whose correction was judged above
        logical -= e_off + m["de"] - de
    if not m["has_e"]:
        logical -= e_off
    if abs(logical) > max(abs(m["de"]), abs(de)) * 0.0101 + 3e-5:
        return "leaves the extruder position %.5f off" % logical
    if p.rel_e != q.rel_e or p.rel != q.rel:
        return "changes a mode"
    return best, j


# ---------------------------------------------------------------------------
def slic3r_regions(lines, zs):
    """kind of perimeter loop each line belongs to, None outside of loops."""
    kinds = []
    outer_next = True
    kind = None
    last_ext = None                   # what the current run of perimeter lines is
    for i, line in enumerate(lines):
        if zs[i][1]:
            outer_next = True
            kind = last_ext = None
        if "; perimeter external" in line:
            if last_ext is not True:
                kind = "outer" if outer_next else "inner"
                outer_next = False
                last_ext = True
        elif "; perimeter" in line:
            if last_ext is not False:
                kind = "loop"
                last_ext = False
        elif "; move to first perimeter point" in line:
            ahead = None
            for k in range(i + 1, len(lines)):
                if zs[k][1]:
                    break
                if "; perimeter external" in lines[k]:
                    ahead = True
                    break
                if "; perimeter" in lines[k]:
                    ahead = False
                    break
            if ahead is True:
                kind = "outer" if outer_next else "inner"
                outer_next = False
                last_ext = True
            elif ahead is False:
                kind = "loop"
                last_ext = False
        elif "unretract" not in line:
            kind = last_ext = None
        kinds.append(kind)
    return kinds


def cura_regions(lines, zs):
    kinds = []
    kind = None
    for i, line in enumerate(lines):
        if zs[i][1]:
            kind = None
        if "TYPE:" in line:
            kind = None
            kinds.append(None)
            kind = {"TYPE:WALL-OUTER": "outer", "TYPE:WALL-INNER": "inner", "TYPE:SKIN": "loop"}.get(
                (re.search(r"TYPE:[A-Z-]+", line) or [None])[0])
            continue
        kinds.append(kind)
    return kinds


def skeinforge_regions(lines, zs):
    kinds = []
    kind = None
    for line in lines:
        if line.startswith("(<loop>"):
            kind = "loop"
        elif line.startswith("(<edge> outer"):
            kind = "outer"
        elif line.startswith("(<edge>"):
            kind = "inner"
        elif line.startswith(("(</edge>)", "(</loop>)")):
            kind = None
        kinds.append(kind)
    return kinds


REGIONS = {"cura": cura_regions, "slic3r": slic3r_regions, "skeinforge": skeinforge_regions}
RATIOS = {"loop": 0.11, "inner": 0.32, "outer": 0.1}


def check_stretch(orig, out, kind, edge, strength=1.0, ratios=None, rings=()):
    orig, out = clean(orig), [MARKERS.sub("", s).rstrip() for s in clean(out)]
    ratios = dict(RATIOS, **(ratios or {}))
    state = modes(orig)
    hs = heights(orig)
    zs = [(z, changed and i > 0, e) for i, (z, changed, e) in enumerate(hs)]
    regions = REGIONS[kind](orig, zs)

    def reason(i, line):
        known, rel, rel_e, c = state[i]
        if c.name not in MOVES:
            return None
        letters = set()
        if not rel_e and "E" in c.args:
            letters.add("E")
        if regions[i] and c.name in ("G0", "G1") and ("X" in c.args or "Y" in c.args):
            letters.update("XYEF")
        return letters or None

    def replace(line, text):
        if Cmd(line).name == "M82" and Cmd(text).name == "M83" and len(words(text)) == 1:
            return True
        a, b = Cmd(line), Cmd(text)
        if a.name != b.name or a.name not in ("G0", "G1") or "".join(comments(line)).split() != "".join(
                comments(text)).split():
            return False
        # a stretched line names X, Y and F even if the original one didn't
        extra = set(b.args) - set(a.args)
        return bool(extra) and extra <= set("XYF") and set(a.args) <= set(b.args) and may_extend(line)

    index = {}
    for i, line in enumerate(orig):
        index.setdefault(line, []).append(i)

    def may_extend(line):
        return any(regions[i] for i in index[line])

    pairs, bad, rest = align(orig, out, reason, lambda t: t == "M83", replace)
    if bad:
        return bad
    p, q = Printer(), Printer()
    moved = {}
    for pr in pairs:
        for text in pr.inserted:
            q.run(text)
        c, d = Cmd(pr.orig), Cmd(pr.out)
        before_q = q.e - q.oe
        mp, mq = p.execute(c), q.execute(d)
        where = "line %d %r -> %r" % (pr.index, pr.orig, pr.out)
        for name in ("z", "f", "rel", "inch", "tool"):
            a, b = getattr(p, name), getattr(q, name)
            if a != b and (isinstance(a, bool) or abs(a - b) > 0.0006):
                return [("stretch", "%s: %s is %r instead of %r" % (where, name, b, a))]
        if mp is None:
            continue
        kind_here = regions[pr.index]
        dist = math.hypot(q.x - p.x, q.y - p.y)
        named = "X" in c.args or "Y" in c.args
        if named:
            bound = edge * ratios[kind_here] * abs(strength) if kind_here else 0.0
            carried = 0.0
            if not kind_here:
                # a coordinate the line doesn't name, or names as a distance, is still where the last loop point left it
                dx = q.x - p.x if "X" in c.args and not p.rel else 0.0
                dy = q.y - p.y if "Y" in c.args and not p.rel else 0.0
                dist_here = math.hypot(dx, dy)
            else:
                dist_here = dist
            if dist_here > bound + 0.0012:
                return [("stretch", "%s: moved by %.4f, at most %.4f is allowed (%s)" % (
                    where, dist_here, bound, kind_here or "outside of loops"))]
            if kind_here:
                moved[pr.index] = (q.x - p.x, q.y - p.y)
        de, df = mp["de"], mq["de"]
        if kind_here and named and mp["has_e"] and de > 0:
            low = de * (1 - min(1.0, dist + 0.0015)) - 1.6e-5
            if not low <= df <= de + 1.6e-5:
                return [("stretch", "%s: pushes %.5f instead of %.5f of filament, displaced by %.4f" % (
                    where, df, de, dist))]
        elif kind_here and named and mp["has_e"]:
            if abs(df - de) > abs(de) * (dist + 0.0015) + 1.6e-5:
                return [("stretch", "%s: pushes %.5f instead of %.5f of filament" % (where, df, de))]
        elif abs(df - de) > 1.6e-5:
            return [("stretch", "%s: pushes %.5f instead of %.5f of filament outside of loops" % (where, df, de))]
        if mq["has_e"] and not q.rel_e and abs(before_q) > 1e-5:
            return [("mode", "%s still depends on the absolute extruder position %.5f" % (where, before_q))]
    for ring in rings:
        bad = check_ring(orig, regions, moved, ring, edge, ratios, strength, kind)
        if bad:
            return bad
    return []


def check_ring(orig, regions, moved, ring, edge, ratios, strength, kind):
    """Points of a round loop move away from its centre."""
    start, stop, cx, cy, r = ring
    total = n = 0
    # neighbours far away limit the stretch to their direction, which may be a tiny bit inwards
    points = [(c.args["X"], c.args["Y"]) for c in map(Cmd, orig[start:stop]) if "X" in c.args and "Y" in c.args]
    if len(points) < len(orig[start:stop]):
        return []                     # interrupted by other commands, which the tool may take for the end of the loop
    if any(math.hypot(a[0] - b[0], a[1] - b[1]) > edge * 5 / 3 - 0.002 for a, b in zip(points, points[1:])):
        return []
    kinds = set()
    # points near the ends of the loop see what comes before and after it
    margin = 2 * edge + 0.01
    track = {}
    length = 0.0
    prev = None
    for i in range(start, min(stop, len(orig))):
        c = Cmd(orig[i])
        here = (c.args.get("X"), c.args.get("Y"))
        if None in here:
            continue
        if prev is not None:
            length += math.hypot(here[0] - prev[0], here[1] - prev[1])
        prev = here
        track[i] = length
    for i in range(start, min(stop, len(orig))):
        c = Cmd(orig[i])
        if c.name not in ("G0", "G1") or not ("X" in c.args and "Y" in c.args) or i not in moved:
            continue
        x, y = c.args["X"], c.args["Y"]
        d = math.hypot(x - cx, y - cy)
        if abs(d - r) > 0.01:
            continue
        kinds.add(regions[i])
        if not margin < track[i] < length - margin:
            continue
        dx, dy = moved[i]
        radial = (dx * (x - cx) + dy * (y - cy)) / d
        if radial < -0.0012:
            return [("stretch", "line %d %r: a point of a round loop moves %.4f towards its centre" % (i, orig[i], -radial))]
        total += radial
        n += 1
    if n >= 8 and len(kinds) == 1:
        bound = edge * ratios[kinds.pop()] * strength
        # two unit vectors towards the neighbourhood at twice the edge width, scaled by 0.8
        expected = bound * min(1.0, 0.8 * 2 * (2 * edge) / (2 * r))
        if total / n < 0.25 * expected - 0.0006:
            return [("stretch", "a round loop of radius %.2f (lines %d-%d) is widened by %.4f on average, about %.4f expected"
                     % (r, start, stop, total / n, expected))]
        if kind == "skeinforge" and r >= 4.0 and total / n > 0.004:
            # the ends of these loops see each other, so that they aren't pulled along the loop
            for i in range(start - 1, min(stop, len(orig))):
                c = Cmd(orig[i])
                if i not in moved or not ("X" in c.args and "Y" in c.args):
                    continue
                x, y = c.args["X"] - cx, c.args["Y"] - cy
                d = math.hypot(x, y)
                if abs(d - r) > 0.01:
                    continue
                along = abs(moved[i][1] * x - moved[i][0] * y) / d
                out = (moved[i][0] * x + moved[i][1] * y) / d
                if along > 0.3 * total / n + 0.002 or not 0.6 * total / n - 0.002 < out < 1.5 * total / n + 0.002:
                    return [("stretch", "line %d %r: an end of a round loop moves %.4f along it and %.4f outwards, the "
                             "others %.4f outwards" % (i, orig[i], along, out, total / n))]
    return []


# ---------------------------------------------------------------------------
def options(sc):
    """Options of a gcode_mod scenario."""
    o = {"x": 0.0, "y": 0.0, "e": False, "pause": None}
    args = sc.get("args", [])
    i = 0
    while i < len(args):
        if args[i] == "-x":
            o["x"] = float(args[i + 1])
            i += 1
        elif args[i] == "-y":
            o["y"] = float(args[i + 1])
            i += 1
        elif args[i] == "-p":
            o["pause"] = int(args[i + 1])
            i += 1
        elif args[i] == "-e":
            o["e"] = True
        i += 1
    return o
