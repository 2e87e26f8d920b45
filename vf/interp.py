"""Independent reference reader of a G-code program: what every line of the program *means*.

Shares no code with pyGCodeDecode.  One reference state per program line plus an initial one.
"""

import re

WORD = re.compile(r"([A-Z])\s*([-+]?(?:\d+\.\d*|\.\d+|\d+))?")
AX = ("X", "Y", "Z", "E")
ARCS_ETC = ("G2", "G3", "G10", "G11", "G28", "G29")  # known to the tool but not simulated


def split_line(line):
    """-> (list of (command, {param: float|None}), comment|None)."""
    line = line.rstrip("\n")
    code, sep, comment = line.partition(";")
    cmds = []
    for letter, num in WORD.findall(code):
        if letter in "GM" or (letter in "TN" and not cmds):
            if num == "":
                name = letter
            elif "." in num:
                name = letter + num
            else:
                name = letter + str(int(num))
            cmds.append((name, {}))
        elif cmds and letter not in cmds[-1][1]:
            cmds[-1][1][letter] = float(num) if num != "" else None
    return cmds, (comment.strip() if sep else None)


class RefState:
    __slots__ = ("pos", "feed", "p_acc", "jerk", "vmax", "units", "pause", "comment", "layer", "line")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw[k])


def interpret(lines, setup):
    """setup: dict with p_vel,p_acc,jerk,vX..vE,X,Y,Z,E and optionally layer_cue -> list[RefState]."""
    prog = {a: float(setup.get(a, 0)) for a in AX}  # programmed (work) coordinate, mm
    phys = dict(prog)  # machine coordinate, mm
    off = {a: 0.0 for a in AX}
    vmax = {a: setup["v" + a] for a in AX}
    feed, acc, jerk = setup["p_vel"], setup["p_acc"], setup["jerk"]
    abs_xyz = abs_e = True
    unit, units = 1.0, "SImm"
    cue = setup.get("layer_cue")
    layer = 0
    out = [
        RefState(
            pos=tuple(phys[a] for a in AX), feed=feed, p_acc=acc, jerk=jerk, vmax=tuple(vmax[a] for a in AX),
            units="SImm", pause=None, comment=None, layer=None, line=None,
        )
    ]
    for n, line in enumerate(lines, 1):
        cmds, comment = split_line(line)
        pause = None
        for name, par in cmds:
            if name == "G90":
                abs_xyz = True
            elif name == "G91":
                abs_xyz = False
            elif name == "M82":
                abs_e = True
            elif name == "M83":
                abs_e = False
            elif name == "G20":
                unit, units = 25.4, "inch"
            elif name == "G21":
                unit, units = 1.0, "SImm"
            elif name in ("G0", "G1"):
                for a in AX:
                    if a in par:
                        absolute = abs_e if a == "E" else abs_xyz
                        prog[a] = unit * par[a] if absolute else prog[a] + unit * par[a]
                        phys[a] = prog[a] + off[a]
                if "F" in par:
                    feed = unit * par["F"] / 60
            elif name == "G92":
                for a in AX:
                    if a in par:
                        off[a] = phys[a] - unit * par[a]
                        prog[a] = unit * par[a]
            elif name == "M204":
                if "P" in par:
                    acc = unit * par["P"]
            elif name == "M203":
                for a in AX:
                    if a in par:
                        vmax[a] = unit * par[a]
            elif name == "M205":
                if "X" in par:
                    jerk = unit * par["X"]
            elif name == "G4":
                if "P" in par:
                    pause = par["P"] / 1000.0
                if "S" in par:
                    pause = par["S"]
        if cue is not None and comment is not None and comment == cue:
            layer += 1
        out.append(
            RefState(
                pos=tuple(phys[a] for a in AX), feed=feed, p_acc=acc, jerk=jerk, vmax=tuple(vmax[a] for a in AX),
                units=units, pause=pause, comment=comment, layer=layer if cue is not None else None, line=n,
            )
        )
    return out


def unsupported_counts(lines):
    counts = {}
    for line in lines:
        for name, _ in split_line(line)[0]:
            if name in ARCS_ETC:
                counts[name] = counts.get(name, 0) + 1
    return counts
