# encoding: utf-8
"""Lines without reason to change come out verbatim."""
from .semantic import ASSUMPTIONS, MEASURE, REAL, RULE, STUB, finish, run_and_judge, setup
from .semantic import shrink as base_shrink
from .. import gen, oracles, procsim

ID = "P18"
RUNS = {"quick": 18000, "thorough": 3000000}
CATS = ("verbatim", "rewrite", "lost")

ODD = [
    "M117  two  blanks", "M117\ttab", "m104 s200", "; comment  with   blanks", ";", ";;", "(open", "close)", "()",
    "G4", "G4 S1;x", "M109S200", "M117 G1 X5 Y5", "M486 A\"part 1\"", "@RESUME  now", "%", "O100", "M118 E1 \u20ac",
    "T1 ; tool  change", "G10", "G11 ; unretract", "G29", "G80", "M82.5", "M1 X1 Y1 E1", "N7", "M900 K0.05",
    "; E5 X5", "M23 file~1.gco", "G53", "G17", "M205 X8.00 Y8.00", "G26 C P5.0", "M572 D0 S0.1", "/M25", "$H", "?",
    "M140 S60.0 ; bed  (no heat)", "SET_FAN SPEED=1", "EXCLUDE_OBJECT NAME=a.b", "G1", "G0", "G1 S100 ; laser",
    "M73 P0 R5\u00a0", "; \u2028 separator", "G1 F\u0661", ";\x0b\x1c",
]
WEIRD_LAST = 3                        # the last ones contain separators of lines for some functions


def sprinkle(rng, prog):
    prog = list(prog)
    for _ in range(rng.choice([1, 2, 4, 8])):
        prog.insert(rng.randint(0, len(prog)), rng.choice(ODD[:-WEIRD_LAST] if rng.random() < 0.9 else ODD))
    return prog


def generate(rng, tier):
    j = procsim.job(rng)
    if j["tool"] in ("gcode_stretch", "stretch_plugin") and "slicer" not in j:
        s = gen.slicer_program(rng, kind="cura" if j["tool"] == "stretch_plugin" else None)
        j["program"] = s["lines"]
        j["kind"], j["edge"] = s["kind"], s["edge"]
        if j["tool"] == "gcode_stretch" and rng.random() < 0.2:
            s = gen.skeinforge_program(rng)
            j.update(tool="skeinforge_host", args=[], program=s["lines"], kind=s["kind"], edge=s["edge"])
    if j["tool"] != "skeinforge_host" and rng.random() < 0.05 and "-x" not in j["args"] and "-y" not in j["args"]:
        j["program"] = gen.to_inches(j["program"])
    if rng.random() < 0.7:
        j["program"] = sprinkle(rng, j["program"])
    if j["tool"] in ("gcode_mod", "gcode_optimize_arcs", "gcode_stretch") and rng.random() < 0.02:
        j["program"] = rng.choice([[], [], ["; nothing"], ["G21"]])
    return finish(rng, j)


def judge_for(sc):
    tool = sc["tool"]
    if tool == "gcode_mod":
        opt = oracles.options(sc)

        def judge(a, b):
            if not any(x in sc["args"] for x in ("-x", "-y", "-e", "-p")):
                return [] if oracles.clean(b) == oracles.clean(a) else [
                    ("verbatim", "without any modification " + oracles.first_difference(
                        "\n".join(a).encode("utf-8", "surrogateescape"), "\n".join(b).encode("utf-8", "surrogateescape")))]
            return oracles.check_mod(a, b, opt["x"], opt["y"], opt["e"], opt["pause"])
        return judge
    if tool in ("gcode_stretch", "stretch_plugin", "skeinforge_host"):
        strength = (sc.get("extra") or {}).get("stretch_strength", 1.0)
        if "--stretch_strength" in sc["args"]:
            strength = float(sc["args"][sc["args"].index("--stretch_strength") + 1])
        return lambda a, b: oracles.check_stretch(a, b, sc["kind"], sc["edge"], strength, {}, ())
    if tool == "gcode_optimize_arcs":
        return lambda a, b: oracles.check_arcs(a, b)[0]

    def additive(a, b):
        a, b = oracles.clean(a), oracles.clean(b)
        i = 0
        for text in b:
            if i < len(a) and text == a[i]:
                i += 1
            elif not oracles.TEMP.match(text):
                return [("verbatim", "line %d %r became %r" % (i, a[i] if i < len(a) else "end", text))]
        return [("verbatim", "line %d %r and all after it are missing" % (i, a[i]))] if i < len(a) else []
    return additive


def run(sc):
    return run_and_judge(sc, judge_for(sc), CATS, refusal(sc))


def refusal(sc):
    if "tempcal" not in sc["tool"]:
        return None
    z = float(sc["args"][sc["args"].index("-z") + 1]) if "-z" in sc["args"] else sc["extra"]["min_z_change"]
    return lambda a: oracles.too_low(a, z)


def valid(sc):
    return True


def shrink(sc):
    marks = [m for m in ("CURA_PROFILE_STRING", "<edgeWidth>") if any(m in l for l in sc["program"])]
    for c in base_shrink(sc):
        if not all(any(m in l for l in c["program"]) for m in marks):
            continue                  # the tool would not know the slicer any more
        yield c
