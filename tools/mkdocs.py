"""Writes properties.jsonl and MANIFEST.json (run by hand after changing a property)."""

import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
P = "pyGCodeDecode/"
SG, SI, PB, JH, UT, TO, AB, CL = (P + x for x in ("state_generator.py", "gcode_interpreter.py", "planner_block.py", "junction_handling.py", "utils.py", "tools.py",
                                                   "abaqus_file_generator.py", "cli.py"))
FEW = "the two tests that can run here read a presets file and plan one hand-made block"
PR = "programs, configurations"

props = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=[x.strip() for x in over.split(",")], text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), _note=note, _tech=technique))


prop("C01", "Every line's commanded position is read with the modes and units in force",
     "For any program and initial position, the position assigned to each line of G-code is what the standard meaning of its G0/G1 words gives: absolute or relative motion (G90/G91), absolute or"
     " relative extrusion (M82/M83), inches or millimetres (G20/G21) as selected before, axes that are not named unchanged. Setting a position with G92 changes how later coordinates are read but"
     " never moves the nozzle, and every selection lasts until it is changed.",
     "programs, histories", "All sequences of motion, mode, unit and G92 commands with any subset of axes, from any initial position.",
     "The meaning of a line depends on the whole history of mode changes before it; " + FEW + ".",
     [SG, P + "state.py"], [("mode, unit and offset tracking over the lines", SG + " dict_list_traveler")], ["states of a simulation"],
     "Every line's position is compared with an independent interpreter written from the G-code meaning.", "runtime monitoring: state log of every line against an independent G-code interpreter")
prop("C02", "Feed rate, acceleration, jerk, limits and pauses follow the program",
     "For any program, the feed rate, printing acceleration, jerk, axis speed limits, selected unit and pause recorded for each line are the last values commanded up to that line (F, M204 P, M205 X,"
     " M203, G20/G21, G4 P in milliseconds or S in seconds), converted to millimetres and seconds, or else those of the printer setup. A parameter that a command does not name stays unchanged, and a pause applies only"
     " to its own line.",
     "programs, histories", "All sequences of setting commands with any subset of parameters, in both units, from any setup.",
     "Settings accumulate over the history and interact with the selected unit; " + FEW + ".",
     [SG, P + "state.py"], [("settings copied from line to line", SG + " dict_list_traveler")], ["states of a simulation"],
     "Every line's settings are compared with an independent interpreter.", "runtime monitoring: settings log of every line against an independent G-code interpreter")
prop("C03", "Comments, spelling and unknown commands never change what a program does",
     "Two programs that differ only in comments, blank lines, spacing, letter-number layout, leading zeros, line endings, parameter order or in commands the tool does not know describe the same states and the same"
     " trajectory. Text behind a semicolon is never executed, and each line keeps its own comment text and line number.",
     "programs, inputs", "All respellings of all programs, with arbitrary comments and unknown commands interleaved, including comments that look like commands.",
     "The set of spellings is unbounded and a parser slip shows only for particular neighbours of characters; " + FEW + ".",
     [SG], [("splitting a line into commands, parameters and comment", SG + " arg_extract")], ["states and trajectory of a simulation"],
     "Each program is simulated in two spellings and both are compared line by line with the reference reading.", "runtime monitoring: metamorphic comparison of state logs and traces of respelled programs")
prop("C04", "The layer number of every line counts the layer cues before it",
     "With a layer cue configured, the layer number of any line equals the number of lines up to and including it whose comment is the cue (apart from surrounding blanks); longer or shorter comments, other"
     " letter case and the same text outside a comment do not count. This holds however the cue was configured, and without a cue no layer is assigned.",
     "programs, configurations", "All programs and cues, with cues repeated, on lines with commands, near misses, and each way of configuring the cue.",
     "Off-by-one and matching errors need particular comments and positions; no running test uses layers.",
     [SG, SI], [("cue comparison and counting", SG + " dict_list_traveler"), ("cue from the setup", SI + " setup.get_dict")], ["states of a simulation"],
     "Layer numbers are recounted independently for every line.", "runtime monitoring: layer log of every line against a recount")
prop("C05", "Unsupported commands are reported completely and have no effect",
     "For any program the report names every command that is known but not simulated (G2, G3, G10, G11, G28, G29) with its exact number of occurrences, also when spelled with leading zeros, and names nothing that"
     " only looks similar, is supported, or stands in a comment. Such commands change neither the position nor any setting of any line.",
     "programs", "All mixtures of unsupported, unknown, look-alike and supported commands in code and comments.",
     "Counting and matching depends on the neighbourhood of every command; no running test contains such a command.",
     [SG], [("check before the simulation", SG + " check_for_unsupported_commands")], ["returned report", "console message", "states of a simulation"],
     "Report, message and states are compared with an independent count and reading.", "runtime monitoring: report and state log against an independent count")
prop("C06", "The printer setup in force is exactly the one configured, or it is rejected",
     "A simulation starts from exactly the values of the selected printer, overridden by the latest property and initial-position changes (converted from the given unit), and plans with that printer's firmware; other"
     " printers of the same file stay as written. An unknown printer, a missing or unknown setting, contradicting machine names, an unknown unit and an incomplete position are rejected with an error before"
     " anything is simulated; a refused change leaves the setup as it was.",
     "configurations, histories", "All preset files, selections, orders of property and position changes, and invalid variations of them.",
     "Overriding depends on the order of calls and the combination of sources; the running test reads one file.",
     [SI], [("setup merging", SI + " setup.get_dict, set_property, set_initial_position"), ("validation", SI + " simulation.check_initial_setup")],
     ["first state and trajectory of a simulation", "raised errors"], "Accepted setups are checked through states and trajectory, rejected ones through the error.",
     "runtime monitoring: configured values against states and trace of the run")

T = "simulated trajectory (positions, velocities and times over the whole print)"
prop("C07", "The nozzle follows exactly the programmed path",
     "In every simulation the nozzle and extruder visit the programmed positions in order, moving between consecutive ones on the straight line with all four axes in fixed proportion, never backwards, never beyond"
     " the target, and every programmed motion is carried out exactly once. At the end of each motion the queried position is the programmed one.",
     PR, "All programs of moves, extrusions, modes and units; all firmware variants; all feed rates and accelerations.",
     "The path is cut into pieces differently for every combination of length, speed, acceleration and neighbours; " + FEW + ".",
     [PB, SI], [("cutting a move into acceleration, cruise and deceleration", PB + " move_maker2"), ("one block per moving line", SI + " generate_planner_blocks")], [T],
     "Positions of all recorded segments and sampled queries are compared with the reference path.", "runtime monitoring: offline trace checker for the programmed path")
prop("C08", "The trajectory is one gapless timeline starting at zero",
     "In every simulation time starts at zero at the initial position and never runs backwards; each piece of motion begins at the instant and at the place where the previous one ended, up to the end of the print. This also holds"
     " after the look-ahead has changed and shifted earlier pieces.",
     PR, "All programs, firmware variants and settings, in particular long chains of corrected short moves.",
     "Gaps appear only where corrections of several neighbours interact; the running test looks at one block.",
     [PB], [("time shift of corrected blocks", PB + " self_correction, _align_next_block, timeshift")], [T],
     "Every pair of neighbouring pieces of every recorded trace is checked.", "runtime monitoring: offline trace checker for time and place continuity")
prop("C09", "Motion obeys kinematics with the programmed acceleration",
     "Everywhere in a trajectory, the distance covered by each axis equals its mean velocity times the elapsed time, the velocity points along the move with the extruder in proportion, and the speed is either constant"
     " or changes at exactly the acceleration in force for that move. Values queried at any two instants of the same piece agree with this.",
     PR, "All programs, firmware variants, speeds, accelerations and changes of them.",
     "Wrong times or speeds show only for particular combinations of entry, target and exit speed; " + FEW + ".",
     [PB, UT], [("trapezoid, triangle and single-ramp profiles", PB + " move_maker2"), ("interpolation within a piece", UT + " segment")], [T],
     "All recorded segments and pairs of queries are checked against the kinematic equations.", "runtime monitoring: offline trace checker for kinematic equations")
prop("C10", "The programmed speed is never exceeded and is reached whenever possible",
     "During any motion the speed never exceeds the feed rate in force for that line. Between its entry and exit speeds every motion speeds up as much as feed rate, acceleration and length allow, so it takes the shortest possible"
     " time for these.",
     PR, "All programs, firmware variants, feed rates, accelerations and lengths, including moves too short to reach the feed rate.",
     "The feasible peak depends on length, acceleration and both neighbours; " + FEW + ".",
     [PB], [("choice of profile and peak speed", PB + " move_maker2")], [T],
     "Peak speed and duration of every recorded motion are compared with closed formulas.", "runtime monitoring: offline trace checker for speed bounds and optimal profiles")
prop("C11", "Speed is continuous across motions and zero at every required standstill",
     "At every transition between two travelling motions the exit speed equals the entry speed of the next one, and within a motion the speed never jumps. The print starts from standstill, and the machine"
     " is at standstill before and after every dwell, when an extruder-only motion ends, and when travel resumes after one.",
     PR, "All sequences of travel, extruder-only motion and dwells; all firmware variants.",
     "Jumps appear when the correction of one motion is not passed on to its neighbour, which needs particular chains; " + FEW + ".",
     [PB, JH], [("entry speed from the previous block", PB + " planner_block"), ("correction passed backwards", PB + " _correct_velocity")], [T],
     "Every transition of every recorded trace is checked.", "runtime monitoring: offline trace checker for speed continuity")
prop("C12", "No corner is passed faster than the firmware's corner rule allows",
     "At every corner between travelling motions the speed is at most the limit of the selected firmware rule for the two programmed velocities and the jerk and acceleration in force: classic jerk (speed change limited"
     " to twice the jerk), junction deviation, Klipper square-corner velocity including its mid-move limit, per-axis jerk of Anisoprint's firmware, or a full stop if no firmware is selected; the end of the print counts as a corner to standstill. A jerk of zero means a stop at every"
     " corner that changes direction or speed.",
     PR, "All angles, speeds, lengths, jerks and accelerations on both sides of a corner; all firmware variants.",
     "The limits are nonlinear in angle, speeds and settings and have thresholds; no running test looks at corner speeds of these rules.",
     [JH, PB], [("corner rules", JH + " junction_handling_*"), ("selection of the rule", PB + " planner_block.__init__")], [T],
     "Every corner speed is compared with an independent implementation of the five rules; corners within float noise of a rule's threshold are skipped and counted.",
     "runtime monitoring: offline trace checker with independent corner rules")
prop("C13", "The look-ahead finds the fastest admissible speeds, no slower and no faster",
     "Among all speed plans that respect feed rates, accelerations, corner limits and the required stops, the simulation uses the one that passes every transition as fast as possible: the speed at every transition, and so the total print time, equals the"
     " optimum over the whole program. In particular it brakes in time over as many preceding motions as needed.",
     PR, "All chains of moves, in particular many short moves within one braking distance; all firmware variants.",
     "The optimum couples arbitrarily many neighbouring moves; " + FEW + ".",
     [PB, SI], [("backward correction of velocities", PB + " self_correction, _correct_velocity"), ("forward limit by reachable speed", PB + " move_maker2")], [T],
     "All transition speeds and total times are compared with an independent two-pass planner.", "runtime monitoring: trace against an independent reference planner")
prop("C14", "Pauses last exactly as long as programmed, at the right place",
     "Every dwell holds the nozzle and extruder at standstill for exactly the programmed time (milliseconds or seconds) at the position reached so far, after the motion of its own line if it has one. No pause is lost,"
     " merged or repeated, also for the first or last line, several in a row, or a zero length.",
     "programs, histories", "All placements and spellings of dwells among moves, settings and comments.",
     "Dwells interact with the linking of neighbouring motions; no running test has one.",
     [SG, PB, SI], [("pause of a line", SG + " dict_list_traveler"), ("pause as a standing piece of motion", PB + " planner_block.__init__")], [T],
     "Every programmed pause is located in the recorded trace and measured.", "runtime monitoring: offline trace checker for pauses")
prop("C15", "Asking for position and velocity is repeatable and right at every instant",
     "For every time from zero to the end of the print, inclusive, the queried position and velocity are those of the simulated trajectory, whatever was asked before and in whatever order. Queries outside of the print time are never"
     " answered with values, and no query changes the trajectory or any later answer.",
     "histories, programs", "All orders of all query times, including exact boundaries, their floating-point neighbours, repeated and invalid times.",
     "The search remembers the last hit, so errors need particular sequences of queries; no running test queries values.",
     [SI, UT], [("search with remembered index", SI + " find_current_segment, simulation.get_values")], ["results of value queries"],
     "Each answer is compared with the recorded trajectory and with earlier answers.", "runtime monitoring: query-history checker against the recorded trace")
prop("C16", "Every result is the millimetre result times one exact unit factor",
     "For any simulation, positions, velocities, extrusion extent, maximum extrusion speed, event series and summary in metres, millimetres or inches are the millimetre results multiplied by 1/1000, 1 and 1/25.4; times and extrusion"
     " flags do not depend on the unit. The unit given with a single request overrides that of the simulation for this request only, otherwise the simulation's unit is used, and an unknown unit is rejected.",
     "configurations, programs", "All programs, simulation units and per-request units.",
     "The unit must be applied exactly once in every output; no running test uses a unit.",
     [SI, AB], [("scaling factor", SI + " simulation.get_scaling_factor"), ("use in the outputs", SI + ", " + AB)], ["results of all output functions"],
     "Two simulations in different units are compared over all outputs and request units.", "runtime monitoring: metamorphic comparison of outputs in all units")
prop("C17", "Extrusion extent, maximum extrusion speed and summary describe exactly the print",
     "The extent is the tightest box around the start and end points of all motions that push filament, and the maximum extrusion speed is the highest travelling speed that occurs in those motions; travels and retractions do not count. The"
     " summary file holds exactly these values, the end time of the print and the program's file name; a program that never extrudes is rejected instead of giving numbers.",
     PR, "All programs with travels, retractions, relative and absolute extrusion, and extruder-only motion; all setups.",
     "The extremes may come from any single motion; no running test computes an extent.",
     [SI, PB], [("extent", SI + " simulation.extrusion_extent"), ("maximum speed", PB + " extrusion_block_max_vel"), ("summary", SI + " simulation.save_summary")],
     ["returned extent and speed", "summary file"], "Values are recomputed from the reference reading and the recorded trace; the file is read back.",
     "runtime monitoring: outputs against values recomputed from the event log")
prop("C18", "Extrusion width conserves volume at every instant",
     "At any time of a travelling motion the width of the deposited strand times its height equals filament cross-section times filament length pushed per travelled length, so it is the same along the whole motion and does not depend on the"
     " unit selected for output; it is negative while filament is pulled back. At standstill and during extruder-only motion it is zero.",
     PR, "All instants of all programs, layer heights, filament diameters and units.",
     "The ratio must hold at every speed of the ramp; no running test computes a width.",
     [SI], [("width", SI + " simulation.get_width")], ["returned width"], "25 random instants per program plus standstill and scaling relations.",
     "runtime monitoring: conservation check at random instants")
prop("C19", "The event series reproduces trajectory and extrusion state exactly",
     "For any simulation the event series starts with time zero at the initial position and has exactly one row at the end of every piece of constant acceleration or standstill, with the time and scaled position of the trajectory. A row's flag is one exactly if more"
     " filament than the tolerance is pushed until the next row, and zero in the last row; the written file holds the same rows, rounded to eight digits.",
     PR, "All programs, units, tolerances and target paths.",
     "A flag can be wrong for a single piece only; no running test writes an event series.",
     [AB], [("event series", AB + " generate_abaqus_event_series")], ["returned rows", "written file"], "Rows and flags are compared with the recorded trace and, for whole motions, with the program.",
     "runtime monitoring: output rows against the recorded event log")
prop("C20", "Layer metrics account for all time and all distance",
     "For any print with a layer cue, the layers in increasing order divide the whole print time and the whole travelled distance without loss or double counting: each layer with motion gets the time from its first motion to that of the next layer and the length of its own path, and the"
     " average speed is their quotient (\"NaN\" for no time). The file holds the returned numbers under a header with the chosen delimiter, and without a cue nothing is returned or written.",
     PR, "All distributions of cues over a program (first, last, empty layers, on lines of moves), dwells and retractions, delimiters and units.",
     "Boundaries may fall anywhere; no running test computes layer metrics.",
     [TO, PB], [("layer metrics", TO + " save_layer_metrics"), ("travelled distance", PB + " get_block_travel")], ["returned lists", "written file"],
     "Totals and every layer are recomputed from the recorded trace and the program; the file is read back.", "runtime monitoring: conservation checks of layer totals against the event log")
prop("C21", "Submodel times are exactly the crossings of the path with the box",
     "For an axis-aligned box around the given centre with the given side lengths (in millimetres, whatever the unit of output), the entry and exit times are, in increasing order, exactly the instants at which the nozzle enters and leaves it, none missing, none twice, also where the path"
     " runs along a face, through an edge or has a corner on a face (whether a mere touch counts as entering and leaving at once is left open), and empty if it is never crossed. The number of filaments is the number of entries, the process time is the end of the print, additional information is passed through, and the written file equals the returned result.",
     "programs, inputs", "All paths and all axis-aligned boxes, in general position or aligned with corners of the path.",
     "Crossings depend on path, box and speed profile together; no running test computes submodel times.",
     [TO, PB, UT], [("plane intersection", TO + " write_submodel_times"), ("time at a place of a move", PB + " inverse_time_at_pos")], ["returned times", "written file"],
     "Crossings are recomputed by exact clipping and the inside/outside state is sampled.", "runtime monitoring: output times against clipping of the recorded trace")
prop("C22", "Simulations are repeatable and independent of each other",
     "The same program and setup always give bit-identical trajectories, in the same or another process, and refreshing a simulation reproduces its trajectory while refreshing it with other states gives that of the other program. Queries, outputs, other simulations"
     " and later changes to a shared setup object or selection never alter a finished simulation.",
     "histories", "All sequences of refreshes, queries, outputs, further simulations and setup changes.",
     "Shared state shows only after particular sequences; no running test uses two simulations.",
     [SI, PB, P + "state.py"], [("setup dictionary of a simulation", SI + " setup.get_dict"), ("refresh", SI + " simulation.refresh")], ["trajectories before and after each operation"],
     "Traces are compared bit by bit after every operation and across processes.", "runtime monitoring: bitwise trace comparison over operation histories")
prop("C23", "Every valid program is simulated completely, with finite and plausible results",
     "Any program with at least one motion or pause and positive feed rates and accelerations is simulated to its end without error, endless computation or failed self-checks, regardless of length, tiny or huge moves, extreme speeds, reversals, or lines without motion. All times and values are finite, the print"
     " ends at the last programmed position, and its duration, which the console report names, lies between moving always at full speed and stopping after each motion.",
     PR, "All programs, in particular thousands of moves inside one braking distance and extreme settings; all firmware variants.",
     "Failures need extreme chains or numbers; " + FEW + ".",
     [PB, SI], [("iterative correction", PB + " self_correction"), ("profile cases", PB + " move_maker2"), ("self check", UT + " segment.self_check")], [T, "console messages"],
     "Crashes, hangs (90 s of processor time for programs that take under 2 s), non-finite values and self-check messages are monitored.",
     "runtime monitoring: stress workloads with crash, hang and plausibility monitors")
prop("C24", "Vector and segment arithmetic is exact, typed and leaves its operands alone",
     "Adding, subtracting, scaling, dividing, comparing (with tolerance) and measuring four-axis vectors gives the component-wise result as a new vector of the same kind and accepts vectors, lists, tuples and arrays of length four, and numbers, but nothing else. A segment answers position and"
     " velocity at every instant of its duration by the laws of constant acceleration, refuses instants outside of it, moves in time as a whole, cannot be built from inconsistent data, and its self-check objects to speeds above given settings.",
     "inputs", "All vectors, scalars, segments and instants.",
     "Results must hold for all magnitudes and kinds of operands; the running tests use few vectors.",
     [UT], [("vector operations", UT + " vector_4D, velocity, position"), ("segments", UT + " segment")], ["results of the operations"],
     "Results for random operands are compared with plain arithmetic.", "runtime monitoring: assertions on every operation of random workloads")
prop("C25", "Plots show the simulated trajectory",
     "The curves of the velocity plot are the position and velocity components and the absolute speed of the trajectory at the requested axes and instants (all piece boundaries, or an equidistant number), with markers at the ends of motions or pieces only on request. The 3D mesh covers exactly the extruding pieces of the path (or all of it on request), separate strands"
     " unconnected, coloured with the travelling speed; the saved file holds the returned mesh, and plotting changes nothing.",
     PR, "All programs, axis selections, time resolutions and plot options (without a display).",
     "Mistakes show at single pieces or transitions; no running test plots.",
     [SI], [("velocity plot", SI + " simulation.plot_vel"), ("3D mesh", SI + " simulation.plot_3d"), ("search for plotting", SI + " find_current_segment")], ["figure data", "mesh points, cells and colours", "saved file"],
     "All plotted values and mesh points are read back and compared with the recorded trace; pixels are not looked at.", "runtime monitoring: plotted data against the recorded trace")
prop("C26", "The command line gives the library's results and writes only what was asked",
     "The plot command simulates the given program, or the only one in the current directory, with the given presets and printer (defaults: shipped presets, Anisoprint A4), and writes summary, VTK mesh and, with a layer cue, comma-separated layer metrics with the library's results into the chosen directory, or after"
     " agreement into one named after the program. If a given file, printer or unique program is missing it stops without writing anything, and a refusal to create a directory writes nothing; input files are never changed. The example commands give the library's results for the shipped programs, benchy with all its files and brace without any.",
     "configurations, inputs", "All combinations of given, missing and wrong arguments, answers and directory contents.",
     "The combinations of arguments and directory contents are many; no running test runs the command.",
     [CL], [("argument handling and outputs", CL + " _plot, _main")], ["written files", "exit"], "The command runs in-process in a scratch directory; a missing locale of the sandbox is substituted. Its files are compared with library results and the reference planner.",
     "runtime monitoring: file-system and result monitor around command runs")
prop("C27", "Results do not depend on where, how oriented or at which scale a part is printed",
     "Shifting the origin of any axis, mirroring, exchanging X and Y or turning the part (by any angle for direction-independent corner rules, by right angles for per-axis rules) leaves all times and speeds of the print unchanged. Scaling all lengths"
     " with all speeds, accelerations and jerks, or scaling time, scales the results accordingly.",
     PR, "All programs and transformations; all firmware variants.",
     "Relates pairs of runs; tests look at single runs.",
     [PB, JH, SG], [("corner rules and profiles depend on geometry only", JH + ", " + PB)], [T], "Each program is simulated twice, transformed; event times and speeds must transform accordingly.",
     "runtime monitoring: metamorphic comparison of traces of transformed programs")


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in props:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python -m vf.runner {p['id']} --tier quick", thorough_cmd=f"/opt/venv/bin/python -m vf.runner {p['id']} --tier thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique=p["_tech"], level="exploration",
                   level_note=p["_note"] + " Holds on the executions observed (counts in the evidence file); trusts the reference in /verif/vf, CPython, numpy.") for p in props]
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import vf.runner as r; [r.load('C%02d' % i) for i in range(1, 28)]\"", checks=checks, not_applicable=[],
             notes="Pure Python: no build step, the checks import /repo's working tree. No hooks in /repo are needed; the monitors read the public results and the recorded trajectory.")
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


if __name__ == "__main__":
    main()
