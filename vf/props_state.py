"""C01-C06: what a program and a printer setup mean (state reader monitors)."""

import math

from . import gen, interp, sut, traj

AX = "XYZE"


def num(r, v, nd=None):
    """One of the spellings of a number."""
    nd = r.choice([0, 1, 2, 3, 4, 5, 7]) if nd is None else nd
    s = f"{v:.{nd}f}"
    k = r.random()
    if k < 0.15 and "." in s:
        s = s.rstrip("0")  # 5. or 5.2
    elif k < 0.25 and "." in s and s.lstrip("-").startswith("0."):
        s = s.replace("0.", ".", 1)  # .25
    elif k < 0.32 and not s.startswith("-"):
        s = "+" + s
    elif k < 0.36 and not s.startswith("-"):
        s = "0" + s
    return s


def same(a, b, tol=1e-7):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= tol + 1e-10 * abs(b)


def read(case):
    """Run the real reader on case["lines"] -> list of state dicts (with stdout)."""
    g, y = sut.write_inputs(case)
    import pyGCodeDecode.state_generator as sg

    setup = dict(case["setup"])
    with sut.quiet() as buf:
        st = sg.generate_states(filepath=g, initial_machine_setup=setup)
    return sut.states_of(st), buf.getvalue()


def rnd_setup(r):
    s = gen.gen_setup(r)
    for a in AX:
        s[a] = r.choice([0, 0, 0, 1.5, -3, 10, 20.25, 0.1, round(r.uniform(-50, 50), 3)])
    s.update(vX=r.choice([180, 90.5]), vY=r.choice([170, 181]), vZ=r.choice([12, 30]), vE=r.choice([80, 33]), printer_name="p")
    return s


def val(r):
    return r.choice([0, r.uniform(-5, 5), r.uniform(-300, 300), r.uniform(0, 0.01), r.randint(-20, 250), r.uniform(-9999, 9999)])


def words(r, axes, f=0.3):
    w = [a + num(r, val(r)) for a in axes if r.random() < 0.5]
    if r.random() < f:
        w.append("F" + num(r, r.choice([60, 300, 1500, 2345.5, 9000, r.uniform(1, 20000)])))
    r.shuffle(w)
    return w


# ---------------------------------------------------------------- C01

def c01_gen(r, i, tier):
    lines = []

    def modes(p):  # up to three mode words on one line, none contradicting another
        if r.random() > p:
            return ""
        w = [r.choice(x) for x in (("G90", "G91"), ("M82", "M83"), ("G20", "G21")) if r.random() < 0.5] or ["G90"]
        r.shuffle(w)
        return " ".join(w) + " "

    for _ in range(r.randint(1, 80)):
        k = r.random()
        if k < 0.62:
            pre = modes(0.05)
            lines.append(pre + r.choice(["G0", "G1", "G1"]) + "".join(" " + w for w in words(r, AX)))
        elif k < 0.86:
            lines.append(modes(1).strip() if r.random() < 0.15 else r.choice(["G90", "G91", "M82", "M83", "G20", "G21"]))
        elif k < 0.97:
            w = [a + num(r, r.choice([0, 0, val(r)])) for a in AX if r.random() < 0.45]
            r.shuffle(w)
            lines.append(modes(0.1) + "G92 " + " ".join(w or ["E0"]))
        else:
            lines.append(r.choice(["", "; note", "M104 S200", "G4 P10", "M204 P500"]))
    return {"lines": lines, "setup": rnd_setup(r)}


def c01_check(case, ctx):
    ref = interp.interpret(case["lines"], case["setup"])
    got, _ = read(case)
    if not ctx.expect(len(got) == len(ref), "count", f"{len(got)} positions for {len(ref) - 1} lines plus the start"):
        return
    mode = {}
    for n, (g, e) in enumerate(zip(got, ref)):
        ctx.count("positions")
        for a, x, y in zip(AX, g["pos"], e.pos):
            if not same(x, y, 1e-9 * (1 + n / 20)):
                src = case["lines"][n - 1] if n else "(start)"
                ctx.bad("position", f"after line {n} {src!r}: {a}={x!r}, the program means {y!r}")
                return
    text = [interp.split_line(x)[0] for x in case["lines"]]
    for cmds in text:
        for name, par in cmds:
            ctx.count(name)
            mode[name] = 1
            if name in ("G0", "G1") and mode.get("G91") and par:
                ctx.count("moves_after_mode_switch")
    ctx.trivial = not any(n in ("G0", "G1") for c in text for n, _ in c)


# ---------------------------------------------------------------- C02

def c02_gen(r, i, tier):
    lines = []
    for _ in range(r.randint(1, 70)):
        k = r.random()
        if k < 0.4:
            lines.append(r.choice(["G0", "G1"]) + "".join(" " + w for w in words(r, AX, 0.6)))
        elif k < 0.55:
            w = [p + num(r, r.choice([50, 200, 800.5, 1250, 5000, 0])) for p in "PRST" if r.random() < 0.5] or ["P" + num(r, 321)]
            r.shuffle(w)
            lines.append("M204 " + " ".join(w))
        elif k < 0.70:
            w = [p + num(r, r.choice([0.4, 1, 5, 8, 10.5, 20, 0])) for p in "XYZEJS" if r.random() < 0.5] or ["X" + num(r, 7)]
            r.shuffle(w)
            lines.append("M205 " + " ".join(w))
        elif k < 0.80:
            w = [a + num(r, r.choice([12, 50, 120.5, 200, 0])) for a in AX if r.random() < 0.5] or ["Z9"]
            r.shuffle(w)
            lines.append("M203 " + " ".join(w))
        elif k < 0.90:
            w = []
            if r.random() < 0.7:
                w.append("P" + num(r, r.choice([0, 1, 15, 250.5, 1500, 61000, 0.4, 7200000])))
            if r.random() < 0.4 or not w:
                w.append("S" + num(r, r.choice([0, 0.25, 1, 2.5, 90, 1200, 86400])))
            r.shuffle(w)
            lines.append("G4 " + " ".join(w))
        elif k < 0.95:
            lines.append(r.choice(["G20", "G21"]))
        else:
            lines.append(r.choice(["", "G90", "G91", "M83", "M82", "G92 E0", "; F100 M204 P1", "M201 X900", "M220 S50"]))
    for k in range(len(lines) - 1, 0, -1):  # several commands on one line
        both = lines[k - 1] + r.choice([" ", "  ", ""]) + lines[k]
        names = [c for c, _ in interp.split_line(both)[0]]
        if r.random() < 0.15 and ";" not in both and len(set(names)) == len(names) and set(names) <= {"G1", "M203", "M204", "M205", "G4"}:
            lines[k - 1:k + 1] = [both]
    return {"lines": lines, "setup": rnd_setup(r)}


UNIT = {"SImm": 1, "inch": 25.4}


def c02_check(case, ctx):
    ref = interp.interpret(case["lines"], case["setup"])
    got, _ = read(case)
    if not ctx.expect(len(got) == len(ref), "count", "number of states"):
        return
    changes = 0
    prev = None
    for n, (g, e) in enumerate(zip(got, ref)):
        src = case["lines"][n - 1] if n else "(start)"
        for what, x, y in (("feedrate", g["feed"], e.feed), ("acceleration", g["p_acc"], e.p_acc), ("jerk", g["jerk"], e.jerk),
                           *[("max axis speed " + a, p, q) for a, p, q in zip(AX, g["vmax"], e.vmax)],
                           ("dwell", g["pause"], e.pause), ("unit", UNIT.get(g["units"]), UNIT[e.units])):
            ctx.count("settings")
            if not same(x, y, 1e-9):
                ctx.bad(what.split()[0], f"line {n} {src!r}: {what} is {x!r}, the program means {y!r}")
                return
        cur = (e.feed, e.p_acc, e.jerk, e.vmax)
        if prev is not None and cur != prev:
            changes += 1
        if e.pause is not None:
            ctx.count("dwells")
        prev = cur
    ctx.count("changes", changes)
    ctx.trivial = changes == 0


# ---------------------------------------------------------------- C03

NONASCII = ["µm", "für Schicht → 3", "层 2", "°C", "60 \udcb0C", "f\udcfcr G1 X5", "\udcff\udcfe"]  # the last three are bytes that are no UTF-8


def shown(c):
    """The text of a comment, whatever its bytes are."""
    return c.encode("utf-8", "surrogateescape").decode("utf-8", "replace").strip()



SEPARATORS = [f"part{c}{x}" for c in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029" for x in ("G1 X77 E9", "next")]  # no line ends for a G-code reader
BARE = ["G0", "G1", "M203", "M204", "M205", "G4"]  # without parameters they change nothing
PARAMS = ["X5", "P7", "S3", "X1 Y2 E3 F4", "X", "E-5", "Z0.2", "F100", " X9", "Y1;X2"]


def vary(r, cmd, par, comment):
    """A different spelling of one command with parameters [(letter, text)]."""
    if cmd in ("G0", "G1") and r.random() < 0.3:
        cmd = "G1" if cmd == "G0" else "G0"
    if r.random() < 0.12:
        cmd = cmd[0] + "0" * r.choice([1, 1, 2]) + cmd[1:]
    par = list(par)
    r.shuffle(par)
    out = []
    for letter, v in par:
        x = float(v)
        s = v
        k = r.random()
        if k < 0.2:
            s = f"{x:.10f}"
        elif k < 0.35 and "." in v:
            s = v + "0" * r.randint(1, 3)
        elif k < 0.45 and "." not in v:
            s = v + r.choice([".", ".0", ".000"])
        elif k < 0.52 and not v.startswith("-"):
            s = "+" + (v[1:] if v.startswith("0.") and r.random() < 0.5 else v)
        elif k < 0.6 and v.replace("-", "").startswith("0."):
            s = v.replace("0.", ".", 1)
        out.append(letter + (" " if r.random() < 0.04 else "") + s)
    sep = r.choice([" ", " ", " ", "", "  ", "\t", " \t "])
    s = sep.join([cmd] + out)
    if comment is not None:
        s += r.choice(["", " ", "\t", "   "]) + ";" + r.choice(["", " ", "  "]) + comment + r.choice(["", "", " ", "\t"])
    else:
        s += r.choice(["", "", "", " ", "\t", "   "])
    return r.choice(["", "", "", " ", "    ", "\t"]) + s


def c03_gen(r, i, tier):
    traj_case = i % 8 == 0
    base = gen.gen_case(r, size=r.randint(1, 3 if traj_case else 5), deco=0, weights={"noise": 0, "mode": 3, "settings": 3, "layer": 0, "burst": 0})
    out = []
    for line in base["lines"]:
        while r.random() < 0.25:
            k = r.random()
            if k < 0.2:
                out.append([r.choice(["", " ", "\t", "   "]), "", None])
            elif k < 0.3:
                c = r.choice(PARAMS)
                out.append([r.choice(BARE) + r.choice(["", "", " "]) + ";" + c, "", c.strip()])
            elif k < 0.35:
                c = r.choice(SEPARATORS)
                out.append([r.choice(["", "M107 ", "G1 "]) + ";" + c, "", c.strip()])
            elif k < 0.6:
                c = r.choice(gen.COMMENTS + NONASCII)
                out.append([r.choice(["", " "]) + ";" + r.choice(["", " "]) + c, "", shown(c)])
            else:
                u = r.choice(gen.UNKNOWN + gen.UNKNOWN_PREFIXED * 2 + gen.UNSUPPORTED)
                c = r.choice(gen.COMMENTS) if r.random() < 0.3 else None
                out.append([u + ("" if c is None else " ;" + c), "", None if c is None else c.strip()])
        groups = []
        for t in line.split():
            groups.append((t, [])) if t[0] in "GM" else groups[-1][1].append((t[0], t[1:]))
        c = r.choice(gen.COMMENTS + NONASCII) if r.random() < 0.35 else None
        text = [vary(r, cmd, par, c if n == len(groups) - 1 else None) for n, (cmd, par) in enumerate(groups)]
        out.append([" ".join(text), line, None if c is None else shown(c)])
    return {"lines": out, "setup": dict(base["setup"], printer_name="vfprinter"), "eol": r.choice(["\n", "\n", "\r\n"]),
            "final_eol": r.random() < 0.8, "trajectory": traj_case}


def c03_check(case, ctx):
    L = case["lines"]
    variant = dict(case, lines=[a for a, _, _ in L])
    ref = interp.interpret([b for _, b, _ in L], case["setup"])
    got, _ = read(variant)
    if not ctx.expect(len(got) == len(ref), "count", f"{len(got) - 1} states for {len(L)} lines"):
        return
    for n, (g, e) in enumerate(zip(got, ref)):
        src = L[n - 1][0] if n else "(start)"
        if n:
            ctx.count("lines")
            ctx.expect(g["line"] == n, "line_number", f"line {n} {src!r} is reported as line {g['line']}")
            ctx.expect(g["comment"] == L[n - 1][2], "comment", f"line {n} {src!r}: comment {g['comment']!r}, expected {L[n - 1][2]!r}")
            if L[n - 1][2]:
                ctx.count("comments")
            if L[n - 1][1] == "" and L[n - 1][0].strip():
                ctx.count("noise_lines")
        for what, x, y in [("position", p, q) for p, q in zip(g["pos"], e.pos)] + [
            ("feedrate", g["feed"], e.feed), ("acceleration", g["p_acc"], e.p_acc), ("jerk", g["jerk"], e.jerk), ("dwell", g["pause"], e.pause),
            *[("max speed", p, q) for p, q in zip(g["vmax"], e.vmax)]]:
            if not same(x, y, 1e-6):
                ctx.bad("meaning", f"line {n} {src!r}: {what} {x!r}, but {L[n - 1][1]!r} means {y!r}")
                return
    if case.get("trajectory"):
        keep = [b for _, b, _ in L if b]
        if gen.valid(dict(case, lines=keep)) is None:
            return
        a, b = sut.simulate(variant, "a"), sut.simulate(dict(case, lines=keep, eol="\n"), "b")
        if a.error or b.error:
            ctx.bad("crash", a.error or b.error)
            return
        x, y = [s for bl in sut.trace(a.sim) for s in bl], [s for bl in sut.trace(b.sim) for s in bl]
        ctx.count("trajectories_compared")
        if not ctx.expect(len(x) == len(y), "trajectory", f"{len(x)} vs {len(y)} segments"):
            return
        for p, q in zip(x, y):
            if abs(p.t1 - q.t1) > 1e-6 * (1 + q.t1) or traj.maxdiff(p.p1, q.p1) > 1e-6:
                ctx.bad("trajectory", f"different spelling, different trajectory: t={p.t1} {p.p1} vs t={q.t1} {q.p1}")
                return


# ---------------------------------------------------------------- C04

CUES = ["LAYER_CHANGE", "LAYER", "layer", "AFTER_LAYER_CHANGE", "Layer change (1)", "LAYER:", "----", "Z.2 next", "G1 X5", "a;b", "Schicht für µ", "层", "BEFORE  LAYER", "x\ty"]


def c04_gen(r, i, tier):
    cue = r.choice(CUES)
    if r.random() < 0.06:  # a very long one
        cue = cue + " " + "".join(r.choice("abc =,. ") for _ in range(r.choice([60, 75, 90, 130, 260, 520]))) + "z"
    near = [cue + "S", cue + " 1", "x" + cue, cue.swapcase() if cue.swapcase() != cue else cue + "!", cue[:-1], cue + ";", ";" + cue,
            cue + ": 3", cue + " " + cue, "; " + cue, cue[:1] + " " + cue[1:], cue + " " * r.choice([30, 90, 200, 300]) + "x", cue + "y" * r.choice([30, 90, 300])]
    for a, b in ((" ", "  "), ("  ", " "), ("\t", " "), (" ", "\t"), (" ", "\u00a0")):
        if a in cue:
            near.append(cue.replace(a, b))
    lines = []
    for _ in range(r.randint(2, 60) if i % 30 else r.choice([300, 700, 1100])):
        k = r.random()
        pad, tail = r.choice(["", " ", "  ", "\t"]), r.choice(["", "", " ", "\t", "  "])
        code = r.choice(["", "", "G1 X{} Y{}", "G1 Z{} F600", "M107 ", "G92 E0", "G4 P{}", "G28", "M83"]).replace("{}", str(r.randint(0, 99)))
        if r.random() < 0.02:
            pad += " " * r.choice([60, 78, 99, 128, 255])
        if k < 0.35:
            lines.append(f"{code};{pad}{cue}{tail}")
        elif k < 0.55:
            lines.append(f"{code};{pad}{r.choice(near)}{tail}")
        elif k < 0.6 and not any(c in cue for c in ";XYZ"):
            lines.append(f"M117 {cue}" if not cue.startswith("G") else "M107")
        else:
            lines.append(code)
    s = dict(rnd_setup(r))
    via = r.choice(["ctor", "property", "dict", "none", "preset", "ctor_over_preset", "property_over_ctor", "property_over_preset"])
    return {"lines": lines + ["G1 X1 Y1 F600"], "setup": s, "cue": cue, "via": via, "former": r.choice([n for n in near if n.strip()])}


def c04_check(case, ctx):
    import pyGCodeDecode.state_generator as sg

    cue = case["cue"] if case["via"] != "none" else None
    ref = interp.interpret(case["lines"], dict(case["setup"], layer_cue=cue) if cue else case["setup"])
    preset = {"preset": cue, "ctor_over_preset": case["former"], "property_over_preset": case["former"]}.get(case["via"])
    g, y = sut.write_inputs(dict(case, setup=dict(case["setup"], layer_cue=preset), preset_keys=["layer_cue"]) if preset else case)
    with sut.quiet():
        if case["via"] == "dict":
            st = sg.generate_states(filepath=g, initial_machine_setup=dict(case["setup"], layer_cue=cue))
        else:
            gi = sut.modules()
            if case["via"] in ("ctor", "ctor_over_preset"):
                s = gi.setup(presets_file=y, printer="vfprinter", layer_cue=cue)
            elif case["via"] == "property_over_ctor":
                s = gi.setup(presets_file=y, printer="vfprinter", layer_cue=case["former"])
            else:
                s = gi.setup(presets_file=y, printer="vfprinter")
            if case["via"].startswith("property"):
                s.set_property({"layer_cue": cue})
            st = sg.generate_states(filepath=g, initial_machine_setup=s.get_dict())
    if not ctx.expect(len(st) == len(ref), "count", f"{len(st)} states"):
        return
    for n, (a, e) in enumerate(zip(st, ref)):
        if n == 0:
            continue
        ctx.count("layers_assigned")
        if a.layer != e.layer:
            ctx.bad("layer", f"line {n} {case['lines'][n - 1]!r}: layer {a.layer!r}, expected {e.layer!r} (cue {cue!r}, set via {case['via']})")
            return
    ctx.count("cues_seen", ref[-1].layer or 0)
    ctx.count("via_" + case["via"])
    ctx.trivial = cue is not None and not ref[-1].layer


# ---------------------------------------------------------------- C05

def c05_gen(r, i, tier):
    lines = []
    for _ in range(r.randint(1, 50) if i % 60 else r.choice([400, 1200, 3000])):
        k = r.random()
        if k < 0.4:
            s = r.choice(["G2 X{0} Y{1} I2 J0 E1", "G3 X{0} Y{1} R5 F900", "G10", "G10 S1", "G11", "G28", "G28 W", "G28 X Y", "G28 Z",
                          "G28 O", "G28 R{0} L", "G28 XY", "G29 A", "G29 Q W", "G10 P0 L2", "G2 P1 J{0} S5", "G29", "G29 P1", "G29 S1 X{0}", "G29 F{1}", "G28 F600", "G10 F{0}", "G02 X{0} I1", "G03 Y{1} J2", "G28 X0 Y0 Z0"]).format(r.randint(1, 90), r.randint(1, 90))
            if r.random() < 0.3:
                s = "  " + s
            if r.random() < 0.2:  # several commands on one line
                other = r.choice(["G1 X{0} Y{1} F900", "G0 Z{1}", "G90", "M83", "M204 P{0}", "M104 S{0}", "G280", "G92 E0", "G28 X", "G29", "G10", "G11"]).format(r.randint(1, 90), r.randint(1, 90))
                both = r.choice([s + " " + other, other + " " + s])
                names = [c for c, _ in interp.split_line(both)[0]]
                s = both if len(set(names)) == len(names) else s
            if r.random() < 0.4:
                s += r.choice([" ; ", " ; ", ";", ";;"]) + r.choice(["home", "G28 again", "G2 G3 G29", "arc", "G1 X3", "; double", ";"])
            lines.append(s)
        elif k < 0.6:
            lines.append(r.choice(gen.UNKNOWN + gen.UNKNOWN_PREFIXED + ["G20", "G21", "G280", "G291 X5", "G38.2 Z1", "G5 I0 J3", "G6 X1", "M28 a.g", "M29"]))
        elif k < 0.7:
            lines.append("; " + r.choice(["G28", "G2 X1", "G29 G29", "no G10 here", "infill"]))
        elif k < 0.8:
            lines.append(r.choice(["G90", "G91", "M82", "M83", "G20", "G21"]))
        else:
            lines.append(r.choice(["G0", "G1"]) + "".join(" " + w for w in words(r, AX)))
    return {"lines": lines, "setup": rnd_setup(r)}


def c05_check(case, ctx):
    import pyGCodeDecode.state_generator as sg

    exp = interp.unsupported_counts(case["lines"])
    g, _ = sut.write_inputs(case)
    with sut.quiet() as buf:
        got = sg.check_for_unsupported_commands(line_dict_list=sg.read_gcode_to_dict_list(filepath=g))
    out = buf.getvalue()
    got = {str(k): int(v) for k, v in dict(got).items()}
    ctx.count("reports")
    ctx.count("unsupported_lines", sum(exp.values()))
    ctx.expect(got == exp, "report", f"reported {got}, the program contains {exp}")
    # what the user sees names every such command with its count, and nothing when there is none
    import re

    seen = {m.group(1): int(m.group(2)) for m in re.finditer(r"'?\b(G\d+)\b'?[^\n0-9]*?(\d+)", out)}
    if exp:
        ctx.expect(all(seen.get(k) == v for k, v in exp.items()), "message", f"message {out!r} does not name {exp}")
    else:
        ctx.expect(not seen, "message", f"warns about {seen} in a program without unsupported commands")
    # no effect on position or settings
    st, out2 = read(case)
    ref = interp.interpret(case["lines"], case["setup"])
    if not ctx.expect(len(st) == len(ref), "count", "number of states"):
        return
    for n, (a, e) in enumerate(zip(st, ref)):
        ok = all(same(x, y) for x, y in zip(a["pos"], e.pos)) and same(a["feed"], e.feed) and same(a["p_acc"], e.p_acc) and same(a["jerk"], e.jerk)
        if not ok:
            ctx.bad("effect", f"line {n} {case['lines'][n - 1]!r}: position/feedrate {a['pos']} {a['feed']}, expected {e.pos} {e.feed}")
            return
    if exp:
        ctx.expect(all(k in out2 for k in exp), "message", "no warning while reading the program for a simulation")
    ctx.trivial = not exp


# ---------------------------------------------------------------- C06

SCALE = {"SI": 1e3, "SImm": 1.0, "inch": 25.4}
REQ = ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "firmware")


def c06_gen(r, i, tier):
    printers = {}
    for n in r.sample(["prusa", "a4", "Printer 3", "x", "debugging", "prusa_mini"], r.randint(1, 4)):
        p = {k: v for k, v in gen.gen_setup(r).items() if k in REQ}
        if r.random() < 0.6:
            p.update(nozzle_diam=0.4, filament_diam=1.75)
        printers[n] = p
    name = r.choice(sorted(printers))
    kind = r.choice(["good"] * 12 + ["default", "missing", "typo", "unknown_printer", "mismatch", "nothing", "bad_unit", "bad_position", "no_printer", "bad_out_unit"])
    how = r.choice(["ctor", "select", "reselect"])
    ops = []
    for _ in range(r.randint(0, 4)):
        if r.random() < 0.2:
            ops.append(["visit", r.choice(sorted(printers))])
        elif r.random() < 0.2:  # a change that is refused changes nothing
            pos = {a: r.randint(1, 50) for a in r.sample(AX, r.randint(1, 3))}
            ops.append(["refused"] + r.choice([["printer", r.randrange(20)], ["dict", pos], ["tuple", [r.randint(1, 9) for _ in range(r.choice([1, 3, 5]))]], ["unit", r.choice(["mm", "m", "in"])]]))
        elif r.random() < 0.5:
            p = {k: v for k, v in gen.gen_setup(r).items() if k in REQ}
            ks = r.sample(sorted(p), r.randint(1, 4))
            ops.append(["property", {k: p[k] for k in ks}])
        else:
            pos = [round(r.uniform(-3, 9), 3) if r.random() < 0.7 else 0 for _ in AX]
            ops.append(["position", r.choice(["tuple", "dict"]), pos, r.choice([None, "SI", "SImm", "inch"])])
    axes = r.choice([["X"], ["X", "Y"], ["Z"], ["E"], ["Y", "E"], ["X", "Y", "Z", "E"]])
    g91 = r.random() < 0.5
    lines = (["G91", "M83"] if g91 else []) + ["G1 " + " ".join(f"{a}{r.randint(1, 60) + 0.5}" for a in axes) + r.choice(["", " F1200"])]
    if r.random() < 0.6:  # corners show which firmware plans
        for _ in range(r.randint(1, 4)):
            lines.append(f"G1 X{r.randint(-60, 60) / 2 + 0.25} Y{r.randint(-60, 60) / 2 + 0.25}" + r.choice(["", "", " E2.5", " F2400"]))
    return {"printers": printers, "name": name, "kind": kind, "how": how, "ops": ops, "lines": lines, "setup": printers[name],
            "key": r.choice(REQ), "typo": r.choice(["p_velo", "acc", "Jerk", "layer_que", "vx", "x", "t_vel2"]),
            "unit": r.choice(["mm", "si", "in", "m", ""]), "pick": r.randrange(1000), "cue": r.choice([None, None, "LAYER"])}


def c06_check(case, ctx):
    import yaml

    gi = sut.modules()
    d = sut.scratch()
    (d / "c06.gcode").write_text("\n".join(case["lines"]) + "\n", encoding="utf-8", errors="surrogateescape")
    pr = {k: dict(v) for k, v in case["printers"].items()}
    kind, name = case["kind"], case["name"]
    if kind == "missing":
        for p in pr.values():
            p.pop(case["key"], None)
    elif kind == "typo":
        pr[name][case["typo"]] = 1
    (d / "c06.yaml").write_text(yaml.safe_dump(pr), encoding="utf-8")
    want = dict(pr[name])
    pos = {a: 0.0 for a in AX}
    ctx.count(kind)

    def build():
        if case["how"] == "ctor":
            s = gi.setup(presets_file=d / "c06.yaml", printer=name, layer_cue=case["cue"])
        else:
            s = gi.setup(presets_file=d / "c06.yaml", layer_cue=case["cue"])
            if case["how"] == "reselect":
                for n in sorted(pr):
                    s.select_printer(n)
            s.select_printer(name)
        return s

    def strangers(n):  # names close to an existing one
        return [q for q in dict.fromkeys([n + "x", n[:-1], n.swapcase(), n + "_none", " " + n, n + " ", n.replace("_", " ")]) if q and q != n]

    def rejected(f):
        try:
            with sut.quiet():
                f()
        except (ValueError, KeyError):
            return True
        except Exception as e:  # noqa: BLE001
            ctx.bad("rejection", f"{kind}: {type(e).__name__} instead of a clear rejection: {e}")
            return True
        return False

    if kind == "default":  # only the name of a machine that comes with the package
        import pathlib

        import pyGCodeDecode

        shipped = yaml.safe_load((pathlib.Path(pyGCodeDecode.__file__).parent / "data" / "default_printer_presets.yaml").read_text())
        nm = sorted(shipped)[len(case["lines"][-1]) % len(shipped)]
        setup = dict(shipped[nm], **{a: 0.0 for a in AX})
        with sut.quiet():
            sim = gi.simulation(gcode_path=d / "c06.gcode", machine_name=nm)
        rep = traj.check(interp.interpret(case["lines"], setup), shipped[nm]["firmware"], sut.trace(sim))
        for tag, msg in rep.v:
            ctx.bad("applied", f"shipped printer {nm}: {msg}")
        ctx.expect(rejected(lambda: gi.simulation(gcode_path=d / "c06.gcode", machine_name="no such machine")), "accepted", "unknown machine name accepted")
        return
    if kind == "unknown_printer":
        others = [q for q in strangers(name) + ["nope"] if q not in pr]
        for other in others:
            ctx.count("unknown_names")
            ctx.expect(rejected(lambda: gi.setup(presets_file=d / "c06.yaml", printer=other)), "accepted", f"setup accepts the unknown printer name {other!r}")
            ctx.expect(rejected(lambda: build().select_printer(other)), "accepted", f"select_printer accepts the unknown printer name {other!r}")
        return
    if kind == "nothing":
        ctx.expect(rejected(lambda: gi.simulation(gcode_path=d / "c06.gcode")), "accepted", "simulation without any printer runs")
        return
    if kind == "no_printer":
        ctx.expect(rejected(lambda: gi.setup(presets_file=d / "c06.yaml").set_property({"jerk": 3})), "accepted", "set_property without printer selected")
        return
    if kind == "bad_unit":
        ctx.expect(rejected(lambda: build().set_initial_position((1, 2, 3, 4), input_unit_system=case["unit"])), "accepted", f"unit {case['unit']!r} accepted")
        return
    if kind == "bad_position":
        for bad in ((1, 2, 3), {"X": 1, "Y": 2, "Z": 3}, (1, 2, 3, 4, 5), [1, 2, 3]):
            ctx.expect(rejected(lambda: build().set_initial_position(bad)), "accepted", f"initial position {bad!r} accepted")
        return
    if kind == "missing":
        ctx.expect(rejected(lambda: gi.simulation(gcode_path=d / "c06.gcode", initial_machine_setup=build())), "accepted",
                   f"simulation runs with a setup that lacks {case['key']}")
        return
    with sut.quiet():
        s = build()
    if kind == "bad_out_unit":
        ctx.expect(rejected(lambda: gi.simulation(gcode_path=d / "c06.gcode", initial_machine_setup=s, output_unit_system=case["unit"])),
                   "accepted", f"output unit {case['unit']!r} accepted")
        return
    if kind == "mismatch":
        others = strangers(name) + [q for q in sorted(pr) if q != name]
        other = others[case["pick"] % len(others)]
        ctx.count("mismatch_" + ("printer" if other in pr else "stranger"))
        ctx.expect(rejected(lambda: gi.simulation(gcode_path=d / "c06.gcode", machine_name=other, initial_machine_setup=s)),
                   "accepted", f"machine name {other!r} and setup of {name!r} do not match, but the simulation runs")
        return
    if kind == "typo":
        ctx.expect(rejected(lambda: gi.simulation(gcode_path=d / "c06.gcode", initial_machine_setup=s)), "accepted",
                   f"simulation runs with a setup that has the unknown key {case['typo']}")
        return
    for op in case["ops"]:
        if op[0] == "property":
            s.set_property(dict(op[1]))
            want.update(op[1])
            ctx.count("set_property")
        elif op[0] == "visit":  # another printer and back
            s.select_printer(op[1])
            s.select_printer(name)
            ctx.count("other_printer_and_back")
        elif op[0] == "refused":
            names = [q for q in strangers(name) if q not in pr]
            ok = rejected({
                "printer": lambda: s.select_printer(names[op[2] % len(names)]), "dict": lambda: s.set_initial_position(dict(op[2])),
                "tuple": lambda: s.set_initial_position(tuple(op[2])), "unit": lambda: s.set_initial_position((7, 8, 9, 10), input_unit_system=op[2])}[op[1]])
            ctx.count("refused_changes")
            if not ctx.expect(ok, "accepted", f"{op[1]} {op[2]!r} is accepted"):
                return
        else:
            k = SCALE[op[3] or "SImm"]
            pos = {a: k * v for a, v in zip(AX, op[2])}
            arg = tuple(op[2]) if op[1] == "tuple" else dict(zip(AX, op[2]))
            if op[3] is None:
                s.set_initial_position(arg)
            else:
                s.set_initial_position(arg, input_unit_system=op[3])
            ctx.count("set_initial_position")
    setup = dict(want, **pos)
    if want["p_vel"] <= 0 or gen.valid({"lines": case["lines"], "setup": setup}) is None:
        ctx.trivial = True
        return
    try:
        with sut.quiet():
            sim = gi.simulation(gcode_path=d / "c06.gcode", initial_machine_setup=s, machine_name=name if case["how"] == "select" else None)
    except Exception as e:  # noqa: BLE001
        ctx.bad("crash", f"valid setup rejected: {type(e).__name__}: {e}")
        return
    st = sut.states_of(sim.states)
    ref = interp.interpret(case["lines"], setup)
    for n, (a, e) in enumerate(zip(st, ref)):
        ctx.count("states")
        ok = (all(same(x, y) for x, y in zip(a["pos"], e.pos)) and same(a["feed"], e.feed) and same(a["p_acc"], e.p_acc)
              and same(a["jerk"], e.jerk) and all(same(x, y) for x, y in zip(a["vmax"], e.vmax)))
        if not ok:
            ctx.bad("setting", f"line {n}: position {a['pos']} speed {a['feed']} acceleration {a['p_acc']} jerk {a['jerk']} limits {a['vmax']}, "
                               f"set up were {e.pos} {e.feed} {e.p_acc} {e.jerk} {e.vmax}")
            return
    rep = traj.check(ref, want["firmware"], sut.trace(sim))
    ctx.count("corners_" + str(want["firmware"]), rep.n.get("corners", 0))
    for tag, msg in rep.v:
        ctx.bad("applied", f"printer {name}: {msg}")
    for n, p in pr.items():  # other printers of the file are untouched
        if n != name:
            s2 = gi.setup(presets_file=d / "c06.yaml", printer=n).get_dict()
            ctx.expect(all(s2.get(k) == v for k, v in p.items()), "other", f"printer {n} changed")
            s.select_printer(n)
            got = s.get_dict()
            ctx.expect(all(got.get(k) == v for k, v in p.items()) and got.get("printer_name") == n, "other",
                       f"after changing {name}, printer {n} has {got}, the file says {p}")


PROPS = {
    "C01": dict(
        gen=c01_gen, check=c01_check, n={"quick": 45000, "thorough": 180000}, chunk=60,
        need={"positions": 50000, "moves_after_mode_switch": 5000, "G92": 3000},
        rule="Random line sequences of G0/G1/G90/G91/M82/M83/G92/G20/G21 with random axis subsets, number spellings and initial positions;"
             " the position after every line is compared with an independent G-code interpreter. Non-trivial: contains a move command.",
    ),
    "C02": dict(
        gen=c02_gen, check=c02_check, n={"quick": 45000, "thorough": 180000}, chunk=60, need={"settings": 500000, "changes": 30000, "dwells": 5000},
        rule="Random sequences of F words, M203/M204/M205/G4 with parameter subsets and unit switches; recorded settings of every line are"
             " compared with an independent interpreter. Non-trivial: some setting changes.",
    ),
    "C03": dict(
        gen=c03_gen, check=c03_check, n={"quick": 25000, "thorough": 60000}, chunk=20,
        need={"lines": 20000, "comments": 5000, "noise_lines": 1000, "trajectories_compared": 80},
        rule="Generated programs are respelled (spacing, order, number format, leading zeros, G0/G1, CRLF) and interleaved with comments and"
             " unknown commands; states, line numbers, comments and (1 in 8) the whole trajectory must equal those of the canonical program."
             " Non-trivial: every case.",
    ),
    "C04": dict(
        gen=c04_gen, check=c04_check, n={"quick": 30000, "thorough": 120000}, chunk=40, need={"layers_assigned": 50000, "cues_seen": 10000},
        rule="Random programs with exact cues, near-misses and cue text outside comments, the cue given in three ways or not at all; the layer"
             " of every line is compared with a count. Non-trivial: at least one cue occurs (or no cue was requested).",
    ),
    "C05": dict(
        gen=c05_gen, check=c05_check, n={"quick": 35000, "thorough": 120000}, chunk=40, need={"reports": 2000, "unsupported_lines": 10000},
        rule="Random programs mixing unsupported, unknown, look-alike and supported commands in code and in comments; report, message and the"
             " absence of any effect are checked. Non-trivial: contains an unsupported command.",
    ),
    "C06": dict(
        gen=c06_gen, check=c06_check, n={"quick": 30000, "thorough": 80000}, chunk=40, noshrink=True,
        need={"good": 800, "missing": 40, "typo": 40, "mismatch": 40, "states": 2000, "corners_MKA": 200, "corners_klipper": 200, "corners_marlin_jd": 200, "corners_marlin_jerk": 200, "unknown_names": 500},
        rule="Random preset files with several printers, random sequences of property and initial-position changes, and invalid setups; accepted"
             " setups must govern the first state and the planned trajectory, invalid ones must be rejected. Non-trivial: valid or rejected.",
    ),
}
