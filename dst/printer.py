"""Reference model of a printer, independent of the code under test.

It follows the conventions documented in gcoder.py: G90/G91 select positioning
and extrusion mode, M82/M83 the extrusion mode alone, G92 shifts the logical
coordinates without moving, a bare G92 zeroes all of them, G28 homes.
"""
import math
import re

WORD = re.compile(r"([A-Za-z])\s*([-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)?)")
MOVES = ("G0", "G1", "G2", "G3")


def strip_comment(line):
    out = re.sub(r"\([^()]*\)", " ", line)
    return out.split(";", 1)[0].strip()


def comments(line):
    """Everything of a line which is comment."""
    parts = re.findall(r"\([^()]*\)|;.*", line)
    return parts


def words(line):
    """[(letter, text)] of a line without comments; line numbers are dropped."""
    code = strip_comment(line)
    ws = [(m.group(1).upper(), m.group(2)) for m in WORD.finditer(code)]
    if ws and ws[0][0] == "N":
        ws = ws[1:]
    return ws


def command(line):
    ws = words(line)
    if not ws:
        return None
    return ws[0][0] + ws[0][1]


class Cmd(object):
    __slots__ = ("name", "args", "letters", "text")

    def __init__(self, line):
        ws = words(line)
        self.text = line
        self.name = ws[0][0] + ws[0][1] if ws else None
        self.letters = [w[0] for w in ws[1:]]
        self.args = {}
        for letter, num in ws[1:]:
            if num not in ("", "+", "-"):
                self.args[letter] = float(num)


class Printer(object):
    """Head position from machine origin, logical offsets, modes."""

    FIELDS = ("x", "y", "z", "ox", "oy", "oz", "e", "oe", "rel", "rel_e", "inch", "tool", "f")

    def __init__(self, home=(0.0, 0.0, 0.0)):
        self.home = home or (0.0, 0.0, 0.0)
        self.x = self.y = self.z = 0.0
        self.ox = self.oy = self.oz = 0.0
        self.e = self.oe = 0.0
        self.rel = self.rel_e = self.inch = False
        self.tool = 0
        self.f = 0.0
        self.homed = None

    def state(self):
        return tuple(getattr(self, f) for f in self.FIELDS)

    def logical(self):
        return (self.x - self.ox, self.y - self.oy, self.z - self.oz, self.e - self.oe)

    def run(self, line):
        """Executes one line; returns a dict for moves, None otherwise."""
        return self.execute(Cmd(line))

    def execute(self, c):
        name = c.name
        if name is None:
            return None
        u = 25.4 if self.inch else 1.0
        a = c.args
        if name in MOVES:
            before = (self.x, self.y, self.z)
            e0 = self.e
            if "F" in a:
                self.f = a["F"] * u
            if self.rel:
                self.x += a.get("X", 0.0) * u
                self.y += a.get("Y", 0.0) * u
                self.z += a.get("Z", 0.0) * u
            else:
                if "X" in a:
                    self.x = a["X"] * u + self.ox
                if "Y" in a:
                    self.y = a["Y"] * u + self.oy
                if "Z" in a:
                    self.z = a["Z"] * u + self.oz
            if "E" in a:
                if self.rel_e:
                    self.e += a["E"] * u
                else:
                    self.e = a["E"] * u + self.oe
            move = {"name": name, "from": before, "to": (self.x, self.y, self.z), "de": self.e - e0, "has_e": "E" in a,
                    "f": self.f}
            if name in ("G2", "G3"):
                move["i"] = a.get("I", 0.0) * u
                move["j"] = a.get("J", 0.0) * u
            return move
        if name == "G20":
            self.inch = True
        elif name == "G21":
            self.inch = False
        elif name == "G90":
            self.rel = self.rel_e = False
        elif name == "G91":
            self.rel = self.rel_e = True
        elif name == "M82":
            self.rel_e = False
        elif name == "M83":
            self.rel_e = True
        elif name == "G28":
            axes = [x for x in "XYZ" if x in c.letters] or list("XYZ")
            if "X" in axes:
                self.x, self.ox = float(self.home[0]), 0.0
            if "Y" in axes:
                self.y, self.oy = float(self.home[1]), 0.0
            if "Z" in axes:
                self.z, self.oz = float(self.home[2]), 0.0
        elif name == "G92":
            axes = [x for x in "XYZE" if x in a]
            if not axes:
                self.ox, self.oy, self.oz, self.oe = self.x, self.y, self.z, self.e
            if "X" in axes:
                self.ox = self.x - a["X"] * u
            if "Y" in axes:
                self.oy = self.y - a["Y"] * u
            if "Z" in axes:
                self.oz = self.z - a["Z"] * u
            if "E" in axes:
                self.oe = self.e - a["E"] * u
        elif name[0] == "T" and name[1:].isdigit():
            self.tool = int(name[1:])
        return None


def arc_geometry(move):
    """centre, radius at the start, radius at the end, signed sweep."""
    x0, y0 = move["from"][:2]
    x1, y1 = move["to"][:2]
    cx, cy = x0 + move["i"], y0 + move["j"]
    r0 = math.hypot(x0 - cx, y0 - cy)
    r1 = math.hypot(x1 - cx, y1 - cy)
    a0 = math.atan2(y0 - cy, x0 - cx)
    a1 = math.atan2(y1 - cy, x1 - cx)
    sweep = a1 - a0
    if move["name"] == "G3":
        while sweep <= 1e-9:
            sweep += 2 * math.pi
    else:
        while sweep >= -1e-9:
            sweep -= 2 * math.pi
    return (cx, cy), r0, r1, a0, sweep
