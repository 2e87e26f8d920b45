"""Random but realistic/hostile G-code programs.  Deterministic in the given random.Random."""

import math

from . import interp

FIRMWARES = ("marlin_jerk", "marlin_jd", "klipper", "MKA", None)

UNKNOWN = [
    "M104 S215", "M140 S60", "M190 S60", "M106 S255", "M107", "M115 U5.1", "M862.3 P \"MINI\"", "M201 X1250 Y1250 Z400 E5000",
    "M900 K0.05", "M73 P12 R30", "T0", "M84", "M117 Printing now", "M221 S95", "G80", "M999", "M400", "M600",
]
UNKNOWN_PREFIXED = ["G17", "G18", "G19", "G12 P0 S2", "G30", "G30 X12 Y7", "G33", "G34", "G40", "G54", "G61", "G130 X0 Y0",
                    "M2030 X5", "M2045 P9", "G425", "G161 X5 Y5 F2500", "G42 S3"]
UNSUPPORTED = ["G28", "G28 W", "G28 X Y", "G29", "G29 P1", "G10", "G11", "G10 S1", "G2 X5 Y5 I2 J0 E1", "G3 X1 Y2 I1 J1", "G28 X0 Y0 Z0"]
COMMENTS = ["infill", "TYPE:External perimeter", "G1 X99 Y99 E99", "move to X5 E3 F200", "M204 P7", "G92 E0 X3", "HEIGHT:0.2",
            ";; double", "G4 P5000", "G91", "G20 inches", "", "  padded  ", "LAYER", "LAYER_CHANGE_2", "Z:0.6", "M83 G1 F1", "a=b; c=d"]


def fmt(x, nd):
    s = f"{x:.{nd}f}"
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s


class Gen:
    def __init__(self, rng, **o):
        self.r = rng
        self.o = o
        self.lines = []
        self.x = self.y = self.z = self.e = 0.0  # programmed coords in current units
        self.absp = self.abse = True
        self.inch = False
        self.feed = None
        self.nd = 3
        self.layer = 0
        self.cue = o.get("cue")

    # -- helpers
    def num(self, x):
        return fmt(x, self.nd + (2 if self.inch else 0))

    def rnd(self, x):
        return float(self.num(x))

    def u(self, mm):
        return mm / 25.4 if self.inch else mm

    def emit(self, s):
        self.lines.append(s)

    def word(self, k, v):
        return f"{k}{v}"

    def move(self, x=None, y=None, z=None, de=None, f=None, cmd="G1", ed=5):
        """Absolute target (in current units), relative extrusion amount."""
        w = []
        for k, v, cur in (("X", x, self.x), ("Y", y, self.y), ("Z", z, self.z)):
            if v is None:
                continue
            v = self.rnd(v)
            if self.absp:
                w.append(k + self.num(v))
                new = v
            else:
                d = self.rnd(v - cur)
                w.append(k + self.num(d))
                new = cur + d
            setattr(self, k.lower(), new)
        if de is not None:
            if self.abse:
                self.e = round(self.e + de, ed)
                w.append("E" + fmt(self.e, ed))
            else:
                d = round(de, ed)
                self.e += d
                w.append("E" + fmt(d, ed))
        if f is not None:
            f = max(1, round(f / 25.4, 1) if self.inch else round(f))
            self.feed = f
            fw = "F" + fmt(f, 1)
            if self.r.random() < 0.2:
                w.insert(0, fw)
            else:
                w.append(fw)
        self.emit(cmd + " " + " ".join(w))

    def pick_f(self):
        r = self.r
        if self.o.get("wild") and r.random() < 0.4:
            return r.choice([10, 30, 100, 20000, 30000, 60000, round(math.exp(r.uniform(2, 11)))])
        return r.choice([300, 600, 1200, 1800, 2400, 3000, 4800, 6000, 9000, 12000, r.randint(60, 15000)])

    def maybe_f(self, p=0.3):
        return self.pick_f() if self.r.random() < p else None

    def ext(self, d):
        """extrusion for travel length d (current units) or None."""
        r = self.r
        if r.random() < self.o.get("p_ext", 0.7):
            return round(max(1e-5, d * r.choice([0.033, 0.05, 0.02])), 5)
        return None

    # -- pieces
    def p_random(self):
        r = self.r
        L = r.choice([0.2, 1, 5, 20, 80])
        for _ in range(r.randint(2, 8)):
            a = r.uniform(0, 2 * math.pi)
            d = self.u(L * r.uniform(0.05, 1.2))
            x, y = self.x + d * math.cos(a), self.y + d * math.sin(a)
            z = self.z + d * r.uniform(-0.3, 0.3) if r.random() < 0.15 else None
            self.move(x, y, z, self.ext(d), self.maybe_f(0.2), cmd=r.choice(["G1", "G1", "G0"]))

    def p_polygon(self):
        r = self.r
        n = r.choice([3, 4, 5, 6, 8, 12, 24])
        R = self.u(r.choice([1, 3, 10, 30]))
        a0 = r.uniform(0, 6.28)
        s = r.choice([1, -1])
        cx, cy = self.x - R * math.cos(a0), self.y - R * math.sin(a0)
        f = self.maybe_f(0.7)
        for i in range(1, n + 1):
            a = a0 + s * 2 * math.pi * i / n
            d = 2 * R * math.sin(math.pi / n)
            self.move(cx + R * math.cos(a), cy + R * math.sin(a), None, self.ext(d), f)
            f = None

    def p_arc(self):
        """finely discretised curve."""
        r = self.r
        n = r.randint(8, 40)
        R = self.u(r.choice([2, 5, 20, 100]))
        step = r.choice([1, 2, 4, 8]) * math.pi / 180
        a0 = r.uniform(0, 6.28)
        cx, cy = self.x - R * math.cos(a0), self.y - R * math.sin(a0)
        f = self.maybe_f(0.7)
        for i in range(1, n + 1):
            a = a0 + step * i
            self.move(cx + R * math.cos(a), cy + R * math.sin(a), None, self.ext(R * step), f)
            f = None

    def p_collinear(self):
        r = self.r
        n = r.randint(5, 25)
        d = self.u(r.choice([0.05, 0.1, 0.5, 2]))
        ux, uy = r.choice([(1, 0), (0, 1), (-1, 0), (0.6, 0.8), (-0.8, 0.6)])
        f = self.maybe_f(0.8)
        for _ in range(n):
            self.move(self.x + ux * d, self.y + uy * d, None, self.ext(d), f)
            f = self.maybe_f(0.05)

    def p_zigzag(self):
        r = self.r
        L, w = self.u(r.choice([3, 10, 40])), self.u(r.choice([0.3, 0.45, 1]))
        s = 1
        f = self.maybe_f(0.5)
        horiz = r.random() < 0.5
        for _ in range(r.randint(2, 6)):
            if horiz:
                self.move(self.x + s * L, None, None, self.ext(L), f)
                self.move(None, self.y + w, None, self.ext(w))
            else:
                self.move(None, self.y + s * L, None, self.ext(L), f)
                self.move(self.x + w, None, None, self.ext(w))
            s, f = -s, None

    def p_reverse(self):
        d = self.u(self.r.choice([1, 5, 20]))
        for s in (1, -1, 1):
            self.move(self.x + s * d, None, None, self.ext(d), self.maybe_f(0.3))

    def p_corner(self):
        """long legs joined by arbitrary corners, so that the corner rule decides the speed."""
        r = self.r
        L = self.u(r.choice([15, 40, 120, 300]))
        a = r.choice([0, 90, r.uniform(0, 360)])
        for _ in range(r.randint(2, 6)):
            d = L * r.uniform(0.5, 1.5)
            z = self.z + d * r.choice([0.1, 0.5, -0.3]) if r.random() < 0.12 else None
            ar = math.radians(a)
            f = self.maybe_f(0.4)
            if r.random() < 0.06:
                self.move(z=self.z + self.u(r.choice([5, 20, -8])), f=f)
            else:
                de = self.ext(d)
                if de is not None and r.random() < 0.2:
                    de = round(d * r.choice([0.5, 2.0, 0.2]), 4)
                self.move(self.x + d * math.cos(ar), self.y + d * math.sin(ar), z, de, f)
            a += r.choice([0, 90, -90, 180, 45, 10, -15, 3, 20, 150, 170, 60, 120, 0.3, -0.7, 179.6, 180.3, r.uniform(-180, 180), r.uniform(-30, 30)])

    def p_chain(self):
        """many short moves inside one braking distance."""
        r = self.r
        n = r.choice([20, 40, 80, 160] if r.random() < 0.9 else [240, 330])
        d = self.u(r.choice([0.02, 0.05, 0.1, 0.3]))
        a = r.uniform(0, 6.28)
        bend = r.choice([0, 0.01, 0.03, -0.02])
        f = self.maybe_f(0.7)
        for _ in range(n):
            self.move(self.x + d * math.cos(a), self.y + d * math.sin(a), None, self.ext(d), f)
            a += bend
            f = None
        if r.random() < 0.5:
            self.move(self.x - d * 3 * math.sin(a), self.y + d * 3 * math.cos(a), None, None, None)

    def p_speedstep(self):
        """straight line with feed changes (up and down)."""
        d = self.u(self.r.choice([0.5, 2, 10, 40]))
        for _ in range(self.r.randint(2, 5)):
            self.move(self.x + d, self.y + d * 0.5, None, self.ext(d), self.pick_f())

    def p_retract(self):
        r = self.r
        L = r.choice([0.5, 0.8, 2, 5])
        f = self.pick_f()
        self.move(de=-L, f=r.choice([1500, 2100, 2400, 3600]))
        if r.random() < 0.5:
            self.move(z=self.z + self.u(0.2), f=720)
        d = self.u(r.choice([2, 10, 50]))
        self.move(self.x + d * r.uniform(-1, 1), self.y + d * r.uniform(-1, 1), f=f, cmd=r.choice(["G0", "G1"]))
        if r.random() < 0.5:
            self.move(z=max(0, self.z - self.u(0.2)), f=720)
        self.move(de=L, f=2100)
        self.move(self.x + d * 0.5, None, None, self.ext(d), f)

    def p_tiny(self):
        r = self.r
        for _ in range(r.randint(2, 6)):
            d = self.u(r.choice([0.002, 0.005, 0.01, 0.05]))
            self.move(self.x + d * r.choice([-2, -1, 1, 2]), self.y + d * r.choice([-1, 0, 1]), None, None, self.maybe_f(0.2))

    def p_micro(self):
        """moves far below the resolution of a printer, as from densely sampled curves."""
        r = self.r
        nd, self.nd = self.nd, 7
        for _ in range(r.randint(2, 8)):
            d = self.u(r.choice([1e-5, 3e-5, 8e-5, 2e-4, 1e-3]))
            a = r.choice([0, 90, 45, 30, r.uniform(0, 360)]) * math.pi / 180
            if r.random() < 0.15:
                self.move(de=r.choice([4e-6, -5e-6, 9e-6, 3e-5, -2e-4]), f=self.maybe_f(0.3), ed=6)
            else:
                self.move(self.x + d * math.cos(a), self.y + d * math.sin(a), None, None, self.maybe_f(0.1))
        self.nd = nd

    def p_prime(self):
        """purge and wipe lines: much filament per length, in both directions."""
        r = self.r
        for _ in range(r.randint(2, 5)):
            d = self.u(r.choice([0.5, 2, 10, 40]))
            a = r.choice([0, 90, 180, r.uniform(0, 360)]) * math.pi / 180
            de = round(d * r.choice([0.3, 1, 3, 8, 20]) * r.choice([1, 1, -1]), 4)
            z = self.z + d * 0.3 if r.random() < 0.1 else None
            self.move(self.x + d * math.cos(a), self.y + d * math.sin(a), z, de, self.maybe_f(0.3))

    def p_axes(self):
        """any subset of the axes, each with its own order of magnitude and sign."""
        r = self.r
        top = r.choice([1, 5, 30])
        for _ in range(r.randint(3, 9)):
            ax = [a for a in "xyze" if r.random() < 0.5] or ["z", "e"]
            d = {a: self.u(top * 10 ** -r.choice([0, 0, r.uniform(0, 3)])) * r.choice([-1, 1]) for a in ax}
            if "e" in d and len(d) > 1:
                d["e"] = max(map(abs, (d[a] for a in d if a != "e"))) * 10 ** r.uniform(-3.5, 1) * r.choice([1, 1, 1, -1])
            if "e" in d and abs(d["e"]) < 2e-5:
                d["e"] = 2e-5
            self.move(*(getattr(self, a) + d[a] if a in d else None for a in "xyz"), d.get("e"), self.pick_f() if r.random() < 0.3 else None, cmd=r.choice(["G1", "G1", "G0"]))

    def p_helix(self):
        """spiral vase: every piece of the curve rises a little."""
        r = self.r
        n = r.randint(6, 30)
        R, dz = self.u(r.choice([2, 8, 30])), self.u(r.choice([0.001, 0.01, 0.1, 2]))
        step = r.choice([3, 10, 30]) * math.pi / 180
        a0 = r.uniform(0, 6.28)
        cx, cy = self.x - R * math.cos(a0), self.y - R * math.sin(a0)
        f = self.maybe_f(0.7)
        nd, self.nd = self.nd, max(self.nd, 3)
        for i in range(1, n + 1):
            a = a0 + step * i
            self.move(cx + R * math.cos(a), cy + R * math.sin(a), self.z + dz, self.ext(R * step), f)
            f = None
        self.nd = nd

    def p_touched(self):
        """settings between short moves and directly before extruder-only moves."""
        r = self.r
        d = self.u(r.choice([0.01, 0.05, 0.2, 1]))
        a, bend = r.uniform(0, 6.28), r.choice([0, 0.05, 0.2, 0.7])
        for _ in range(r.randint(3, 12)):
            k = r.random()
            if k < 0.45:
                self.p_settings()
            if k < 0.15:
                self.move(de=r.choice([-2, 0.8, -0.8, 3, 0.05]), f=self.maybe_f(0.3))
            else:
                self.move(self.x + d * math.cos(a), self.y + d * math.sin(a), None, self.ext(d), self.maybe_f(0.1))
                a += bend

    def p_diagonal(self):
        """exactly opposite or equal steps of the axes."""
        r = self.r
        for _ in range(r.randint(2, 5)):
            d = self.rnd(self.u(r.choice([0.5, 1, 5, 20])))
            sx, sy = r.choice([(1, -1), (-1, 1), (1, 1), (-1, -1)])
            if r.random() < 0.2:
                self.move(None, self.y + sx * d, self.z - sx * d if self.z > d or sx < 0 else self.z + d, self.ext(d), self.maybe_f(0.2))
            else:
                self.move(self.x + sx * d, self.y + sy * d, None, self.ext(d) if r.random() < 0.7 else r.choice([-d, d]), self.maybe_f(0.2))

    def p_burst(self):
        """a long run of lines that do not move anything."""
        r = self.r
        base = [r.choice(["; thumbnail iVBORw0KGgo", "", "M117 busy", "; G1 X5", "G92"][:4]) for _ in range(3)]
        for _ in range(r.choice([12, 25, 60])):
            self.emit(r.choice(base))

    def p_layer(self):
        self.layer += 1
        if self.cue:
            pad = self.r.choice(["", " ", "  "])
            if self.r.random() < 0.8:
                self.emit(f";{pad}{self.cue}")
            else:
                self.emit(f"M107 ;{pad}{self.cue}")
        self.move(z=self.z + self.u(self.r.choice([0.1, 0.2, 0.3])), f=self.maybe_f(0.5))

    def p_settings(self):
        r = self.r
        k = r.choice(["M204", "M204", "M205", "M203", "feed"])
        sc = 1 / 25.4 if self.inch else 1

        def n(v):
            return fmt(v * sc, 3)

        if k == "M204":
            extra = r.choice(["", " T900", " R1250", " R800 T700"])
            pool = [20, 50, 100, 10000, 20000] if self.o.get("wild") else [100, 300, 500, 800, 1250, 3000, 5000]
            self.emit(f"M204 P{n(r.choice(pool))}{extra}")
            if r.random() < 0.15:
                self.emit(r.choice(["M204 S500", "M204 T777", "M204 R321"]))
        elif k == "M205":
            pool = [0, 0.1, 0.5, 2, 50, 100] if self.o.get("wild") else [1, 4, 8, 10, 15, 25]
            self.emit(f"M205 X{n(r.choice(pool))}" + r.choice(["", " Y8", " Y9 Z0.4 E1.5", " E2"]))
            if r.random() < 0.15:
                self.emit(r.choice(["M205 Y3", "M205 E2.5", "M205 S0 T0"]))
        elif k == "M203":
            w = [f"{a}{n(r.choice([12, 50, 120, 200]))}" for a in "XYZE" if r.random() < 0.6] or [f"X{n(180)}"]
            self.emit("M203 " + " ".join(w))
        else:
            f = self.pick_f()
            self.emit("G1 F" + fmt(f / 25.4, 1) if self.inch else f"G1 F{f}")

    def p_combined(self):
        """settings, move and sometimes dwell all on one line."""
        r = self.r
        sc = 1 / 25.4 if self.inch else 1
        d = self.u(r.choice([0.05, 0.5, 3, 15]))
        a = r.uniform(0, 6.28)
        for _ in range(r.randint(2, 7)):
            self.move(self.x + d * math.cos(a), self.y + d * math.sin(a), None, self.ext(d), self.maybe_f(0.3))
            a += r.choice([0, 0.1, 0.5, 1.57, -0.3])
            w = [self.lines.pop()]
            if r.random() < 0.6:
                w.append("M204 P" + fmt(r.choice([100, 400, 1000, 2500, 8000]) * sc, 3))
            if r.random() < 0.6:
                w.append("M205 X" + fmt(r.choice([0.5, 3, 7, 12, 25]) * sc, 3) + r.choice(["", " E2"]))
            r.shuffle(w)
            if r.random() < 0.15:
                w.append(r.choice(["G4 P40", "G4 S0.2", "G4 P0"]))
            self.emit(" ".join(w))

    def p_dwell(self):
        r = self.r
        v = r.choice([0, 1, 20, 250, 1500, 61000, 0.25, 12.5, 333.3, 1999.99]) if r.random() < 0.95 else r.choice([660000, 7200000, 36000000])
        self.emit(r.choice([f"G4 P{v}", f"G4 S{fmt(v / 1000, 6)}", f"G4 P7 S{fmt(v / 1000, 6)}"]))

    def p_mode(self):
        r = self.r
        k = r.choice(["abs", "e", "unit", "g92", "g92"])
        if k == "abs" and self.o.get("relative", True):
            self.absp = not self.absp
            self.emit("G90" if self.absp else "G91")
        elif k == "e" and self.o.get("relative", True):
            self.abse = not self.abse
            self.emit("M82" if self.abse else "M83")
        elif k == "unit" and self.o.get("inches", True):
            if self.inch:
                self.emit("G21")
                self.inch = False
                for a in "xyze":
                    setattr(self, a, getattr(self, a) * 25.4)
            else:
                self.emit("G20")
                self.inch = True
                for a in "xyze":
                    setattr(self, a, getattr(self, a) / 25.4)
        elif k == "g92" and self.o.get("g92", True):
            full = self.o.get("g92_nonzero", True)
            ax = ["E"] if r.random() < 0.5 else [a for a in "XYZE" if r.random() < 0.5] or ["E"]
            w = []
            for a in ax:
                v = 0.0 if (not full or r.random() < 0.5) else round(r.uniform(-20, 20), 2)
                w.append(a + fmt(v, 2))
                setattr(self, a.lower(), v)
            self.emit("G92 " + " ".join(w))

    def p_noise(self):
        r = self.r
        pool = UNKNOWN + (UNKNOWN_PREFIXED if self.o.get("prefixed", True) else [])
        if self.o.get("unsupported", False):
            pool = pool + UNSUPPORTED * 2
        s = r.choice(pool)
        if r.random() < 0.3:
            s += " ; " + r.choice(COMMENTS)
        self.emit(r.choice([s, s, "", "; " + r.choice(COMMENTS), ";" + r.choice(COMMENTS)]))


PIECES = {
    "random": 3, "polygon": 3, "arc": 3, "collinear": 2, "zigzag": 2, "reverse": 1, "speedstep": 2, "retract": 2, "tiny": 1,
    "layer": 1, "settings": 2, "dwell": 1, "mode": 2, "noise": 1, "corner": 2, "chain": 0.5, "micro": 0.2, "diagonal": 0.7, "burst": 0.15,
    "prime": 0.5, "touched": 0.7, "axes": 0.8, "helix": 0.3, "combined": 0.4,
}


def decorate(lines, r, p=0.15):
    """Layout variations that do not change the meaning."""
    out = []
    for s in lines:
        if r.random() < p and ";" not in s and s:
            s = s + r.choice([" ", "", "\t"]) + ";" + r.choice(["", " "]) + r.choice(COMMENTS)
        elif r.random() < 0.1 * p / 0.15:
            s = r.choice(["  ", " ", "\t"]) + s
        elif r.random() < 0.1 * p / 0.15 and s.startswith(("G1 ", "G0 ")):
            s = s.replace(" ", r.choice(["", "  ", "\t"])) if ";" not in s else s
        out.append(s)
    return out


def merge(lines, r, p=0.25, p_dwell=0.0):
    """Some settings share a line with the move that follows, some dwells a line with the move before."""
    def is_move(x):
        return x.startswith(("G1 ", "G0 ")) or x.startswith(("M204 P", "M205 X")) and (" G1 " in x or " G0 " in x)

    for k in range(len(lines) - 1, 0, -1):
        if lines[k - 1].startswith(("M204 P", "M205 X")) and is_move(lines[k]) and lines[k - 1][:4] not in lines[k] and not is_move(lines[k - 1]) and ";" not in lines[k] and r.random() < p:
            m = lines.pop(k - 1)
            lines[k - 1] = r.choice([lines[k - 1] + " " + m, m + " " + lines[k - 1]])
    for k in range(len(lines) - 1, 0, -1):
        if lines[k].startswith("G4 ") and is_move(lines[k - 1]) and ";" not in lines[k - 1] + lines[k] and "G4" not in lines[k - 1] and r.random() < p:
            m = lines.pop(k)
            lines[k - 1] += " " + m
        elif p_dwell and is_move(lines[k]) and ";" not in lines[k] and "G4" not in lines[k] and r.random() < p_dwell:
            lines[k] += r.choice([" G4 P0", " G4 P30", " G4 S0.5", " G4 P0.7"])


def gen_setup(r, firmware="?", cue=None, wild=False):
    fw = r.choice(FIRMWARES) if firmware == "?" else firmware
    s = dict(
        p_vel=r.choice([20, 35, 60, 85.5, 150]), p_acc=r.choice([50, 200, 500, 1000, 1250, 3000]),
        jerk=r.choice([0, 1, 5, 8, 10, 10.5, 20, 30]), vX=180, vY=r.choice([170, 180]), vZ=12, vE=80, firmware=fw,
    )
    if wild:
        s.update(p_acc=r.choice([10, 50, 200, 3000, 20000]), jerk=r.choice([0, 0.2, 1, 8, 50, 100]), p_vel=r.choice([0.5, 5, 35, 300, 800]))
    if r.random() < 0.3:
        for a in "XYZE":
            s[a] = r.choice([0, 1.5, -3, 10, 20.25])
    if cue:
        s["layer_cue"] = cue
    return s


def valid(case, eps=1e-6):
    """Domain of the trajectory properties: >=1 motion, no float-noise-sized deltas, positive feed/acceleration."""
    st = interp.interpret(case["lines"], case["setup"])
    moves = 0
    for A, B in zip(st, st[1:]):
        d = math.dist(A.pos[:3], B.pos[:3])
        de = abs(B.pos[3] - A.pos[3])
        if 0 < d < eps or 0 < de < eps:
            return None
        if d or de:
            moves += 1
            if B.feed <= 0 or B.p_acc <= 0:
                return None
    return st if moves else None


def gen_case(r, firmware="?", size=None, weights=None, cue=None, must=(), deco=0.15, **o):
    """One case; retries until valid."""
    for _ in range(50):
        g = Gen(r, cue=cue, **o)
        setup = gen_setup(r, firmware, cue, o.get("wild", False))
        for a in "XYZE":
            setattr(g, a.lower(), setup.get(a, 0.0))
        g.nd = r.choice([2, 3, 3, 4])
        w = dict(PIECES)
        w.update(weights or {})
        names = [k for k in w if w[k] > 0]
        ws = [w[k] for k in names]
        n = size if size is not None else r.randint(3, 12)
        if r.random() < 0.5:
            g.emit(f"G1 F{g.pick_f()}")
        seq = r.choices(names, ws, k=n)
        for m in must:
            seq.insert(r.randint(0, len(seq)), m)
        for k in seq:
            getattr(g, "p_" + k)()
        merge(g.lines, r, p_dwell=o.get("p_dwell", 0.0) * r.choice([0, 1, 4]))
        lines = decorate(g.lines, r, deco) if deco else g.lines
        case = {"lines": lines, "setup": setup}
        if valid(case) is not None:
            return case
    raise RuntimeError("generator could not make a valid case")


def tiny_program(r, fw, cue):
    """One to three short motions: the whole print may take less than a hundredth of a second."""
    L = [f"G1 X{r.choice([0.004, 0.01, 0.05, 0.3, 2])} E{r.choice([0.0005, 0.002, 0.01])} F{r.choice([600, 3000, 9000])}"]
    L += [r.choice(["G1 Y0.02 E0.02", "G4 P1", "G1 E0.05", f";{cue or 'LAYER'}", "G1 X0.02 Y0.05", "G1 X0 Y0", "G92 E0"]) for _ in range(r.choice([0, 0, 1, 2]))]
    return {"lines": L, "setup": dict(gen_setup(r, fw, cue), p_acc=r.choice([500, 3000, 20000]), X=0, Y=0, Z=0, E=0)}


def extreme_program(r, fw, cue=None):
    """Lengths, speeds, accelerations and corner settings over many orders of magnitude."""
    s = dict(gen_setup(r, fw, cue), p_acc=10 ** r.uniform(-0.5, 5.5), jerk=r.choice([0, 10 ** r.uniform(-3, 3)]), p_vel=10 ** r.uniform(-1.5, 3.5), X=0, Y=0, Z=0, E=0)
    while True:
        x = y = z = e = 0.0
        L = []
        for _ in range(r.randint(2, 14)):
            d, a = 10 ** r.uniform(-4, 3), r.choice([0, 90, 180, r.uniform(0, 360)]) * math.pi / 180
            x, y, e = x + d * math.cos(a), y + d * math.sin(a), e + d * r.choice([0, 0.04, 0.04, -0.1, 2])
            if r.random() < 0.1:
                z += d * r.choice([0.01, 1, -1])
            w = f"G1 X{x:.5f} Y{y:.5f} Z{z:.5f} E{e:.5f}" if r.random() < 0.9 else f"G1 E{e:.5f}"
            L.append(w + (f" F{10 ** r.uniform(0, 6):.3f}" if r.random() < 0.6 else ""))
            if r.random() < 0.2:
                L.append(r.choice([f"M204 P{10 ** r.uniform(-0.5, 5.5):.3f}", f"M205 X{10 ** r.uniform(-3, 3):.3f}", "G4 P0.5", "G4 S3"]))
        if valid({"lines": L, "setup": s}):
            return {"lines": L, "setup": s}
