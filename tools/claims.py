T = "Trusts the reference monitor (harness/src/model.rs) and the deck generator; says nothing about circuits the workload does not reach."
C["C01"] = ("Kirchhoff residual monitor over generated DC analyses", "Held on the circuits generated; residual tolerance is the rounding bound of an LU solve with partial pivoting, not a fixed epsilon. " + T)
C["C03"] = ("source-value monitor over every waveform row", "Held on the waveforms generated; half of them hit breakpoints exactly (dyadic times). " + T)
C["C04"] = ("backward-Euler charge and Kirchhoff monitor over consecutive waveform rows", "Held on every pair of consecutive rows observed. " + T)
C["C05"] = ("time-axis automaton over recorded waveform times", "Held on the time axes observed under random step-control settings. " + T)
C["C20"] = ("closed-form response monitor with first-order error bound", "Held on the RC networks and excitations generated, at three step sizes each. " + T)
C["C10"] = ("Kirchhoff monitor against an independent card reader", "Held on the flat decks generated, with hostile names, repeated designators and every ground spelling. " + T)
C["C11"] = ("Kirchhoff monitor against an independent hierarchy expansion; flat-deck twin", "Held on the hierarchies generated (up to 8 definitions, 90 expanded nodes). " + T)
C["C12"] = ("Kirchhoff monitor against an independent parameter resolution", "Held on the parameter hierarchies generated; unresolvable names were all refused. " + T)
C["C02"] = ("junction-law and Kirchhoff monitor over diode operating points", "Held on the diode circuits generated; ordinary ones have to converge, hostile ones have to be right or reported as failed. " + T)
C["C06"] = ("consistency monitor between messages, end time and recorded rows on unsolvable and starved runs", "Held on the unsolvable, starved and solvable circuits generated. " + T)
C["C08"] = ("literal monitor on expanded circuits and settings", "Held on the literals and positions generated; values with a suffix may be off by the rounding of the multiplication (4 ulp). " + T)
C["C09"] = ("bitwise comparison of runs of one deck under different layouts", "Held on the layouts generated. " + T)
C["C17"] = ("controlled-source law monitor over DC points and waveform rows", "Held on the networks of controlled sources generated, ill-conditioned ones excepted. " + T)
C["C18"] = ("metamorphic monitor over pairs of reordered, renamed, reoriented decks", "Held on the pairs generated; differences are bounded by propagating both runs' residual tolerances through the circuit matrix. " + T)
C["C19"] = ("metamorphic superposition and scaling monitor, power-balance monitor", "Held on the circuits generated; differences are bounded by propagating the runs' residual tolerances through the circuit matrix. " + T)
C["C23"] = ("tangent monitor over histories of linearisations", "Held on the histories generated except for the known finding (the thermal voltage is that of a temperature 89.85 C higher). " + T)
C["C24"] = ("comparison of runs built through the library and read from a deck", "Held on the circuits generated. " + T)
C["C13"] = ("bitwise comparison of runs of a deck with imports and with the cards pasted in, started from different directories", "Held on the libraries, sections and places generated. " + T)
C["C14"] = ("refusal monitor on decks broken in one place, in-process and as the program", "Held on the kinds of breakage generated. " + T)
C["C15"] = ("settings monitor and bitwise comparison with hand-made settings over random control blocks", "Held on the command sequences generated. " + T)
C["C07"] = ("file-system snapshot diff, strict file parser and circuit-law monitor on runs of the program", "Held on the paths, directories and circuits generated. " + T)
C["C16"] = ("bitwise comparison of analyses over histories of engine reuse, threads, processes and re-reading", "Held on the histories and thread schedules observed; the scheduler decides which interleavings those are. " + T)
C["C26"] = ("fault injection into the output (limits, devices, LD_PRELOAD shim) with a completeness-or-message monitor", "Held on the faults injected at open, mkdir and write; faults the kernel only reports later (at close or sync) are not injected. " + T)
C["C22"] = ("recording stand-in for matplotlib, drawings and loads compared bit for bit with the simulator's files", "Held on the directories and expressions generated; what matplotlib makes of the drawn values is out of scope. " + T)
C["C21"] = ("CPU-time, iteration and completion monitor on large circuits and random iteration and step limits", "Held on the sizes, shapes and settings generated, within the time limit of a case. " + T)
C["C25"] = ("crash, time, memory and overflow-check monitor on random, mutated and adversarial texts", "Held on the texts generated, up to 64 KB. " + T)
