#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ENG = "src/engine.rs"; SP = "src/spice.rs"; EX = "src/expander.rs"; CK = "src/circuit.rs"; AN = "src/analysis.rs"
BX = "src/bracket_expression.rs"; WW = "src/wavewriter.rs"; CLI = "bin/tiny-spice.rs"

p("C01", "DC solution of every solvable linear circuit obeys Kirchhoff's laws",
  "For every uniquely solvable circuit of resistors, DC/SIN/PWL voltage and current sources and (open) capacitors, the DC operating point has ground at 0 V, the currents flowing out of every non-ground node sum to zero and every voltage source holds its voltage between its terminals, to within rounding. The current reported for a voltage source is the one flowing from its + terminal through the source to its - terminal, and a current source drives its current from + through itself to -.",
  ["inputs", "programs"], "every uniquely solvable linear circuit, whatever its topology, size, polarity and spread of values, read from a deck or built by hand",
  "The tests solve about a dozen fixed networks of at most eight nodes and compare a few node voltages; no test checks every node and branch, floating sources, pivoting-hostile orderings, widely spread values or reversed polarities.",
  [ENG, "src/element/resistor.rs", "src/element/independent.rs"],
  [("MNA stamping of resistors and independent sources", "src/engine.rs: elaborate, stamp_*"), ("Gaussian elimination with partial pivoting and back-substitution", "src/engine.rs: solve")],
  [("dc_op", "node voltages (index = node id) then source branch currents", "src/engine.rs: Engine")],
  ["Engine::dc()", "first data row of a transient waveform file"])

p("C02", "A DC point with diodes is a real operating point, or is reported as failed",
  "When a DC analysis of a circuit with diodes reports no error, every diode carries the current of the exponential junction law Is*(exp(V/Vt)-1), Vt being its thermal voltage (plus at most a 1 pS leak), for the voltage across it, and Kirchhoff's laws hold at every node, to within the convergence tolerances (RELTOL, VNTOL, ABSTOL). When Newton iteration does not reach such a point within ITL1 iterations the analysis says so with an *ERROR* message, and ordinary circuits (diodes fed through resistances by moderate voltages or currents, forward, reverse, stacked, parallel or in bridges) do converge.",
  ["inputs", "programs"], "every circuit with diodes, at every saturation current, bias polarity and topology; convergence for the stated ordinary class",
  "The tests compare a handful of hand-made bias points with stored numbers; they cannot show that every accepted point is a solution, e.g. a point accepted while the step limiter was still holding the iterate back.",
  [ENG, "src/element/diode.rs"],
  [("Newton loop with a convergence test on successive iterates", "src/engine.rs: dc_solve, convergence_check"), ("diode companion model with Colon limiting", "src/element/diode.rs: linearize")],
  [("previous junction voltage", "what the limiter measures its step from", "src/element/diode.rs: Diode")],
  ["Engine::dc()", "*ERROR* lines on stdout"])

p("C03", "Independent sources have exactly their specified value at each recorded time",
  "In every recorded row of a transient analysis, at that row's own time t, a DC source has its constant value, a SIN source has offset + amplitude*sin(2*pi*freq*t), and a PWL source has the piecewise-linear value through its listed points: 0 V before its delay, the last value after the last point, or the pattern repeated from its start when repeating is requested. The first row has the values at t = 0.",
  ["inputs", "programs", "histories"], "every source specification (offset, amplitude, frequency, point list, td, r) and every time recorded, including points exactly on breakpoints, on the delay and on period boundaries",
  "One test looks at a sine source's extremes and none evaluates PWL values at all; the boundaries (t = delay, t = last point, first point at 0 with a non-zero value, repeats) are never sampled, and none ties the value to the timestamp of the row.",
  [ENG, "src/element/vsine.rs", "src/element/isine.rs", "src/element/vpwl.rs"],
  [("evaluate(t) of each source", "src/element/{vsine,isine,vpwl}.rs"), ("sources stamped at the time being solved", "src/engine.rs: independent_source_stamp, transient_analysis")],
  None, ["waveform file rows", "evaluate() of the source types"])

p("C04", "Every recorded transient step conserves charge and obeys Kirchhoff's laws",
  "Between any two consecutive recorded rows of a transient analysis at times t0 < t1, every capacitor's branch current at t1 equals C*(v(t1)-v(t0))/(t1-t0) (backward Euler), and with those currents and the resistor, diode and source currents at t1 Kirchhoff's current law holds at every node and every voltage source holds its voltage, to within the convergence tolerances. The first step starts from the DC operating point, so a circuit whose sources stay constant from t = 0 stays at its operating point.",
  ["inputs", "programs", "histories"], "every circuit that can be described, every pair of consecutive rows, whatever steps the time-step control chose (TSTART = 0, so that every solved step is recorded)",
  "The tests check end values of a few RC/diode circuits or only that the run reached its end; no test checks the balance at every step for arbitrary capacitor networks (floating capacitors, capacitor loops, capacitors across diodes) or after step-size changes.",
  [ENG, "src/element/capacitor.rs"],
  [("backward-Euler companion model", "src/element/capacitor.rs: linearize"), ("storage stamped from the last accepted solution", "src/engine.rs: storage_stamp, transient_analysis")],
  [("unknowns_prev", "the solution at the last accepted time", "src/engine.rs: transient_analysis")],
  ["waveform file rows"])

p("C05", "Transient time axis: from 0, strictly increasing, bounded steps, ends at TSTOP",
  "The first recorded row of a transient analysis is the DC operating point at time 0, later rows have strictly increasing times none of which lies before TSTART or after TSTOP, and a run that meets no error ends with a row at exactly TSTOP and reports TSTOP as its end. Recorded from the start, no step is longer than RMAX*TSTEP, the first one is FS*TSTEP (or RMAX*TSTEP, if that is less), and a step that converged easily at its first try (in fewer than ITL3 iterations) is followed by one twice as long, any other by one no longer than itself, up to that limit and the time left.",
  ["inputs", "configurations", "histories"], "every positive TSTEP, every TSTOP and TSTART, every RMAX, FS, FT, ITL3, ITL4 and every circuit",
  "Tests only compare the reported end with TSTOP, which holds even when the last solution is for another time; the recorded times themselves are never read back.",
  [ENG, AN, WW],
  [("iteration-count time-step control", "src/engine.rs: transient_analysis"), ("TSTEP/TSTOP/TSTART/RMAX/FS", "src/analysis.rs: Configuration")],
  [("t_now, t_delta", "time reached and step to try", "src/engine.rs: transient_analysis")],
  ["waveform file rows", "Statistics.end"])

p("C06", "A solution that was not found is never passed off as one",
  "An analysis that cannot find a solution (singular matrix, iteration limit reached, time step reduced below RMIN*TSTEP, non-finite numbers) says *ERROR* on stdout or stops with a panic message, and a transient that fails part-way records no row for the failed time point or later and reports an end time before TSTOP. A step is given up only once it has been reduced below RMIN*TSTEP. A transient whose operating point cannot be found says so and records no operating-point row for time 0. An analysis that prints no *ERROR* has found a finite solution at every recorded point, and one of a uniquely solvable linear circuit prints none.",
  ["inputs", "programs", "configurations"], "every circuit, including contradictory sources, floating parts, sources across short circuits, and every iteration or step-size limit",
  "The failure paths are run by no test; one test only observes that a bad circuit ends. A false success needs a failing circuit and a monitor that looks at both the messages and the recorded rows.",
  [ENG],
  [("convergence test, ITL1/ITL4 limits, singular pivot and time-step-too-small reports", "src/engine.rs: solve, dc_solve, transient_analysis, convergence_check")],
  None, ["stdout", "waveform file rows", "Statistics.end"])

p("C07", "Waveform file is complete, well-formed and puts each quantity in its column",
  "A transient analysis of deck D run from directory W writes exactly one data file, at waves/D/tran.dat under W (a leading / and any .. of D dropped; creating directories as needed, replacing an old file), tab-separated: a row of names (Time, v(node) for every node starting with ground, i(k) for every voltage source in order), a row of units (s, V, A), and then rows each with one finite decimal number per name. The column named after a node holds that node's voltage and column i(k) the current of the k-th voltage source, with at least nine significant digits in times, voltages and currents.",
  ["inputs", "programs", "configurations"], "every circuit, node naming, deck path (relative, nested, absolute) and time or signal scale (nanoseconds to seconds, nanoamps to kiloamps)",
  "No test opens a waveform file.",
  [WW, ENG, SP, CLI],
  [("header and dump_vector", "src/wavewriter.rs"), ("path built from the deck's path", "src/spice.rs: read_spice"), ("node id to name table", "src/circuit.rs: build_node_id_lut")],
  None, ["waves/<deck>/tran.dat written by the command-line program"])

p("C08", "Numeric literals mean the same number everywhere in a deck",
  "A value written as a decimal integer, a decimal fraction or in exponent form (e or E), with optional sign, has exactly that value, and a decimal with engineering suffix p, n, u, m or k has that value times 1e-12, 1e-9, 1e-6, 1e-3 or 1e3. Whatever other letters follow are units and change nothing. This holds in element values, source parameters, subcircuit parameters and defaults, options and analysis commands alike, and text that does not start with a number is never accepted as one.",
  ["inputs"], "every literal in the stated grammar, every position a value can appear in",
  "Tests read some thirty literals from fixed decks and check almost none of their values; combinations of sign, fraction, exponent, suffix and unit at each position are not enumerated.",
  [BX, SP],
  [("hand-written number state machine", "src/bracket_expression.rs: extract_value")],
  None, ["extract_value()", "solutions of circuits read from decks"])

p("C09", "Layout, comments and ground spelling never change a circuit",
  "Adding or removing blank lines, extra spaces or tabs between fields, lines starting with *, and anything from a ; to the end of its line, writing ground as 0, gnd or GND, or changing the title (first) line leaves the circuit, the analysis and its results identical. A title line is never interpreted, even if it looks like a card or command, and comments and titles may be in any character encoding.",
  ["inputs", "programs"], "every deck and every placement of blank lines, whitespace, comments (attached to the last field or separate) and ground spellings, inside and outside subcircuits, libraries and control blocks",
  "Each test deck has one layout; none is compared with a re-laid-out twin.",
  [SP, CK],
  [("line tokeniser and comment stripping", "src/spice.rs: read_spice"), ("ground aliases", "src/circuit.rs: get_node_id")],
  None, ["waveform file", "Engine::dc()"])

p("C10", "Every card of a deck becomes exactly the element it describes",
  "For every valid deck, the simulated circuit has exactly the elements its cards describe, R, C, D, V (DC, SIN, PWL), I (DC, SIN), E and G, each once, with its terminals on the named nodes in order and with its value; a node name means the same node wherever it is used in a scope, different names are different nodes, and only ground spellings mean ground. So the results equal those of the described circuit, whatever names, including repeated designators, the deck uses.",
  ["inputs", "programs"], "every deck of supported cards in any order, with any legal node names (letters, digits, underscore) and designators",
  "Tests count elements and nodes of fixed decks; counts do not show a swapped terminal, a value taken from another card or two names merged.",
  [SP, CK, EX],
  [("card parsing", "src/spice.rs: read_spice, extract_*"), ("node numbering", "src/circuit.rs: add_node"), ("primitive expansion", "src/expander.rs: expand_primitive")],
  None, ["Engine::dc()", "waveform file"])

p("C11", "A subcircuit behaves exactly like its contents written out in place",
  "For every hierarchy of subcircuits, any depth, any number of instances, any order of definition and use, any cards inside including sources, simulating the deck gives the same solution as the flat circuit obtained by copying each definition's cards into place with ports joined to the connecting nets in order, ground shared, and all other nets private to the instance. Internal nets appear as <instance>.<...>.<net>, top-level nets and nets reached through ports keep the name they have at the outermost level they exist at.",
  ["programs", "inputs"], "every acyclic subcircuit hierarchy and port wiring, including ports tied together or to ground, unused ports, instance and net names repeated in different scopes",
  "Tests count nodes of three fixed decks (one two-level hierarchy); none solves a hierarchical circuit against its flat equivalent.",
  [EX, SP, CK],
  [("recursive expansion with a hierarchy stack and port aliases", "src/expander.rs"), ("node aliases", "src/circuit.rs: add_node_alias")],
  [("nodes", "hierarchical name to node id", "src/circuit.rs: Circuit")], ["Engine::dc()", "waveform file"])

p("C12", "Subcircuit parameters resolve to the right value in every instance",
  "An R, C, E or G value written {name} takes, in each instance separately, the value given for that parameter on the instance's own X line, or the default on the .subckt line when the X line gives none; {name} on an X line takes the value of name in the scope where the X line stands. Values pass unchanged through any number of levels, instances do not influence each other or later ones, and a name that cannot be resolved stops the run instead of being replaced by something else.",
  ["programs", "inputs"], "every nesting of parameterised subcircuits, mix of literal and {name} overrides and defaults, and name reuse across levels and siblings",
  "One test reads three propagated values of one deck; overrides, defaults, shadowing and siblings at several levels are not combined.",
  [EX, BX, "src/parameter.rs", SP],
  [("parameter resolution per hierarchy level", "src/expander.rs: expand_instances"), ("name=value and {name} parsing", "src/spice.rs: extract_parameter, extract_override; src/bracket_expression.rs")],
  [("params", "resolved values by hierarchical name", "src/circuit.rs: Circuit")], ["Engine::dc()", "waveform file"])

p("C13", "A .lib import brings in exactly the named section, from next to the deck",
  "'.lib file section' in a deck adds exactly the cards between '.lib section' and its '.endl' in that file, looked up relative to the importing deck wherever the program is started, and nothing else of the file: no other section, no card and no control command outside the section. Simulating the deck equals simulating it with those cards pasted in; a missing file or missing or unterminated section stops the run.",
  ["programs", "inputs"], "every split of a deck's definitions over library files and sections, with arbitrary other text (cards, subcircuits, other sections, control blocks) around them, and several imports",
  "One test imports two fixed libraries and counts nodes and elements.",
  [SP],
  [("library read mode", "src/spice.rs: read_spice"), ("relative lookup", "src/spice.rs: look_for_file")],
  None, ["waveform file written by the command-line program", "Engine::dc()"])

p("C14", "A deck that cannot be read as written is refused, not simulated differently",
  "A deck with a card that is malformed (missing node or value, non-numeric value, illegal node name, bad source specification, an analysis or option command with a missing or non-numeric value), unknown (element letter, dot-command), misplaced (.ends without .subckt, nested or unterminated .subckt, unterminated .control) or dangling (undefined or recursive subcircuit, wrong number of connections, unresolvable parameter, missing library) produces a diagnostic and no simulation result. No such card is skipped, truncated or replaced by a default so that a different circuit is simulated.",
  ["inputs", "programs"], "every valid deck and every single fault of the listed kinds at any card, at top level or inside used subcircuits",
  "No test reads a faulty deck.",
  [SP, EX, CLI, BX],
  [("there_are_errors flag and panics", "src/spice.rs"), ("definition lookup and port count check", "src/expander.rs"), ("no simulation after errors", "bin/tiny-spice.rs")],
  [("there_are_errors", "whether the deck had errors", "src/spice.rs: Reader")], ["exit status, stdout and absence of a waveform file"])

p("C15", "Control block commands and options take effect as written",
  "'op' selects the DC operating point and 'tran step stop [start]' a transient with exactly those times (start 0 if not given), the last such command winning; 'option NAME=value', with or without spaces around =, in upper or lower case, sets ABSTOL, RELTOL or RMAX to that value for the run, and leaves all other settings at their defaults. Commands the program does not know (plot, print, ...) and a bare 'option' change nothing, and text outside .control/.endc is never taken as a command.",
  ["inputs", "configurations"], "every control block with any mix, order and spelling of commands and options",
  "No test reads a setting back; the decks used write one option in one spelling.",
  [SP, AN],
  [("control block parser", "src/spice.rs: read_spice, extract_option"), ("Configuration", "src/analysis.rs")],
  None, ["Reader::configuration()", "time steps taken in the waveform file"])

p("C16", "Results depend only on the circuit and settings: repeatable, reusable, parallel",
  "Analysing the same circuit with the same settings gives bit-identical results and waveform files every time: in the same or another process, with a fresh engine or one already used for any other circuits, after a failed analysis, and while other engines run in other threads. Analyses never change the circuit they are given.",
  ["histories", "schedules", "inputs"], "every sequence of analyses on one engine, every interleaving of engines on threads, every process start (hash seeds)",
  "Each test makes one engine and runs one analysis in one thread.",
  [ENG, CK, EX, "src/element/diode.rs"],
  [("elaborate resets the engine", "src/engine.rs: elaborate"), ("per-engine copies of stateful devices", "src/engine.rs; src/element/diode.rs"), ("node names independent of hash order", "src/circuit.rs: build_node_id_lut")],
  [("nonlinear_elements etc.", "the engine's copy of the circuit", "src/engine.rs: Engine")], ["Engine::dc()", "waveform files"])

p("C17", "Controlled sources E and G act as ideal amplifiers of their control voltage",
  "In DC and at every transient step, an E element holds v(p)-v(n) = k*(v(cp)-v(cn)) whatever current it must deliver, a G element drives k*(v(cp)-v(cn)) from p through itself to n, and neither draws current from its control nodes. This holds for any sign of k, any terminal grounded or shared, controls that are sources, internal nodes or its own output, cascades and feedback, and inside subcircuits.",
  ["programs", "inputs"], "every uniquely solvable circuit containing E and G elements, in DC and transient",
  "Four tests use E/G with fixed, mostly grounded terminals and positive gain.",
  [ENG, "src/element/vdepsrc.rs", EX],
  [("stamps of VCVS and VCCS", "src/engine.rs: v_dependent_source_stamp"), ("branch index allocation at expansion", "src/expander.rs: expand_primitive")],
  [("v_idx_next", "next free voltage-source branch index", "src/circuit.rs: Circuit")], ["Engine::dc()", "waveform file"])

p("C18", "Card order, names and orientation of parts never change the physics",
  "Permuting the cards of a deck, renaming nodes or designators consistently, swapping the terminals of R or C, or swapping the terminals of a source and negating its value leaves every node voltage (and, up to that sign and the source order, every source current) the same within the convergence tolerances.",
  ["programs", "inputs"], "every deck and every permutation, renaming and reorientation of its parts",
  "Every test has one order and one naming.",
  [ENG, SP, CK, EX],
  [("pivoting makes elimination order irrelevant", "src/engine.rs: solve"), ("nodes identified only through their table", "src/circuit.rs")],
  None, ["Engine::dc()", "waveform file"])

p("C19", "Linear circuits superpose, scale and dissipate no negative energy",
  "For every circuit without diodes, the DC solution and every transient row with the same time steps are linear in the independent sources: scaling all of them scales the solution, and the solution for two sets of sources is the sum of the solutions for each. In circuits of resistors, diodes, capacitors and independent sources, power delivered by the sources equals power absorbed at every point, no resistor or diode delivers energy, and at DC with a single grounded voltage source every node lies between 0 V and that source's voltage.",
  ["programs", "inputs"], "every linear circuit and pair of excitations; every passive network",
  "Needs pairs of related runs or power sums over all branches; no test relates two runs.",
  [ENG],
  [("linear stamping and solving", "src/engine.rs"), ("source branch currents", "src/engine.rs: solve")],
  None, ["Engine::dc()", "waveform file"])

p("C20", "Transient results follow the true time response and improve with smaller steps",
  "For RC networks with known closed-form responses (charging, discharging, dividers, high-pass and low-pass under steps, ramps and sines), every recorded point of a transient analysis lies within the first-order error bound of its largest step of the exact response at that row's time, so the error shrinks in proportion as TSTEP is reduced. The number of points grows accordingly and the recorded waveform covers the whole of 0..TSTOP without gaps longer than RMAX*TSTEP.",
  ["inputs", "configurations"], "every R, C, source and time scale (nanoseconds to seconds) in the stated families and every TSTEP",
  "Tests compare a final value of two RC circuits at one step size with a loose tolerance, which a wrong time base or a wrong start can pass.",
  [ENG, "src/element/capacitor.rs", AN],
  [("backward-Euler integration with bounded steps", "src/engine.rs: transient_analysis; src/element/capacitor.rs")],
  None, ["waveform file rows"])

p("C21", "Circuit size is limited only by memory and every valid run terminates",
  "Circuits with hundreds of nodes, sources and elements, deep (tens of levels) and wide (hundreds of instances) hierarchies, nodes declared but not used, and node numbers with gaps are solved like small ones, without a fixed capacity, crash or stack overflow. A DC analysis stops after at most ITL1+1 iterations, and a transient takes no more than a bounded number of solver iterations per step and always reaches TSTOP or reports an error, for any TSTEP, TSTOP, RMAX, FS, FT, RMIN, ITL3 and ITL4, zero and negative ones included.",
  ["inputs", "programs", "configurations"], "every circuit size and shape within memory; every setting of the iteration and step limits",
  "The largest test circuit has 22 nodes, and no test runs with unusual limits.",
  [CK, ENG, EX],
  [("node counting", "src/circuit.rs: count_nodes"), ("loop limits ITL1, ITL4, RMIN", "src/engine.rs")],
  None, ["Engine::dc()", "Statistics.iterations", "process exit and CPU time"])

p("C22", "The r8n viewer shows the columns that were asked for",
  "For every waveform file the simulator writes, loading it with an expression 'k' yields column 0 as x and column k as y with their names and units, and 'k-j' yields column k minus column j, one point per data row with the file's values unchanged and in order. Run on a directory it draws every .dat file in it once per comma-separated expression, in name order, and an unusable argument (no directory, not a directory, no .dat files, -expr without value) ends with an error status and draws nothing.",
  ["inputs", "configurations"], "every waveform file, column expression and directory content",
  "The Python tool has no tests.",
  ["bin/r8n/__main__.py", "bin/r8n/waveforms.py"],
  [("load and _parse_expr", "bin/r8n/waveforms.py"), ("argument handling and plotting loop", "bin/r8n/__main__.py")],
  None, ["values handed to the plotting library", "exit status"])

p("C23", "The diode companion model is the tangent of the junction law",
  "For every saturation current up to 1 mA, temperature and junction voltage with a representable current, a diode asked repeatedly to linearise at the same voltage settles within a bounded number of calls on the tangent of I = Is*(exp(V/Vt)-1) at that voltage, with Vt = kT/q for its temperature (27 C for deck diodes) and conductance at least 1 pS, and every companion model it returns on the way, from any previous state, is finite and itself a tangent of that law at some voltage.",
  ["inputs", "histories"], "every (Is, T, V) and every sequence of previously requested voltages",
  "The unit test prints a curve and asserts nothing.",
  ["src/element/diode.rs"],
  [("linearize with Colon limiting", "src/element/diode.rs"), ("thermal and critical voltage", "src/element/diode.rs: update_v_thermal, update_v_crit")],
  [("v_d_prev", "junction voltage of the last linearisation", "src/element/diode.rs: Diode")], ["Diode::linearize()"])

p("C24", "A circuit built through the library equals the same circuit read from a deck",
  "A circuit assembled with the library's add_* calls or element values and analysed with a hand-made configuration gives the same node voltages, source currents and waveform as the deck describing it run with the same settings, and default settings are the same on both paths. Node ids returned by the library index the solution vector, source currents follow the nodes in the order the sources were added, and adding a known name returns its id.",
  ["programs", "configurations"], "every circuit expressible both ways",
  "Library tests and deck tests use different circuits; no pair is compared.",
  [CK, ENG, SP, AN],
  [("builder methods", "src/circuit.rs: add_*"), ("Configuration::new and setters", "src/analysis.rs")],
  None, ["Engine::dc()", "waveform file", "Statistics"])

p("C25", "Arbitrary input text ends in a definite outcome, never a hang or crash",
  "For any file contents given as a deck or library (random bytes, truncated, spliced or mutated decks, very long lines or numbers, self-referencing subcircuits), reading and expansion finish within time and memory bounded by the size of the text and of the circuit it describes, with either a circuit, an error report or a clean panic with a message: no endless loop, stack overflow, out-of-memory or arithmetic overflow. Text that only contains comments, blank lines and a title is an empty circuit, which is reported and never crashes the program by signal.",
  ["inputs"], "every byte string up to a size bound, as deck or library file",
  "Tests only read valid decks.",
  [SP, BX, EX],
  [("line-by-line reader", "src/spice.rs"), ("expression scanner", "src/bracket_expression.rs"), ("recursive expansion", "src/expander.rs")],
  None, ["exit status or signal", "CPU time and memory of the process"])

p("C26", "A waveform file that could not be written completely is reported",
  "When the waveform file or its directory cannot be created, or writing to it fails part-way (device full, size limit, file-system error), the run says so with an *ERROR* or panic message instead of ending as if the data were there. Faults of the output never change the analysis itself: the end time and iteration count reported are those of the run without the fault, unless it stopped with a message.",
  ["fault_sequences"], "every point of the run at which creating the directory, opening the file or writing a row can fail",
  "No test makes an output operation fail.",
  [WW, ENG],
  [("directory creation, file creation and row writes with their error reports", "src/wavewriter.rs: new, write")],
  None, ["stdout/stderr and exit status", "Statistics"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
