"""Writes /verif/properties.jsonl from the definitions below."""
import json
import os

CC = "py_fatigue/cycle_count/cycle_count.py"
RF = "py_fatigue/cycle_count/rainflow.py"
HI = "py_fatigue/cycle_count/histogram.py"
CU = "py_fatigue/cycle_count/utils.py"
UT = "py_fatigue/utils.py"
SL = "py_fatigue/damage/stress_life.py"
CG = "py_fatigue/damage/crack_growth.py"
SN = "py_fatigue/material/sn_curve.py"
PC = "py_fatigue/material/crack_growth_curve.py"
MS = "py_fatigue/mean_stress/corrections.py"
TE = "py_fatigue/testing.py"
GE = "py_fatigue/geometry/cylinder.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         state=(), observe=(), hook=None):
    P.append({
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop(
    "C01",
    "Windowed counting plus low-frequency recovery equals the uncut record",
    "Cut any stress record into consecutive windows in each of which the stress changes, count every window, "
    "add the counts in time order (in any bracketing, with missing placeholders in between, with or without "
    "intermediate low-frequency recoveries, and across crashes that restart from a saved partial total) and recover "
    "the low-frequency cycles at the end. The result holds exactly the cycles (range, mean, count) and exactly the "
    "residual sequence that counting the whole record in one piece gives, and counting only the record's turning points "
    "gives the same cycles. Windowing therefore neither loses nor invents fatigue damage.",
    ["inputs", "schedules", "crash_points", "histories"],
    "every record, every set of cut points, every bracketing of the additions, every placement of intermediate "
    "recoveries, outages and crash/restart points",
    "The tests recover the low-frequency cycles of a few fixed sums added left to right; nothing compares a sum with "
    "the uncut record, and none crashes, restarts or recovers midway.",
    [CC, RF],
    [("residual sequence is concatenated by addition", f"{CC}:__add__"),
     ("residuals are counted again on recovery", f"{CC}:_solve_lffd"),
     ("first and last sample of a window are turning points", f"{RF}:findtp")],
    [("residuals_sequence", "turning points not yet closed into full cycles", CC)],
    ["cycles and residual sequence of the recovered count"],
)
prop(
    "C02",
    "Adding counts conserves every cycle whatever the grouping",
    "The total of a series of time-ordered counts holds every full cycle, every half cycle, the small-cycle tally and "
    "every residual turning point (in time order) of its inputs exactly once, and nothing else. The total is the same "
    "however it is formed: pairwise in any bracketing, with the built-in sum, with the progress-reporting sum, with "
    "missing entries (None, zero, NaN) anywhere, and when partial totals are abandoned and formed again. Forming a "
    "total never changes its inputs.",
    ["schedules", "histories", "fault_sequences"],
    "every number of windows, every bracketing and chunking, every placement of missing entries, every abandoned and "
    "repeated partial sum, every message duplication and reordering upstream",
    "The tests add two or three counts in one order; chunk boundaries of the progress-reporting sum, missing entries "
    "at each position and other bracketings are not reached.",
    [CC, UT],
    [("array concatenation on addition", f"{CC}:__add__"),
     ("chunked accumulation", f"{CC}:pbar_sum"),
     ("missing entries are skipped", f"{CC}:_cycle_count_add_checks")],
    [("count_cycle/stress_range/mean_stress", "the spectrum", CC), ("nr_small_cycles", "cycles below the threshold", CC)],
    ["spectrum, residuals, small-cycle tally of totals and inputs"],
)
prop(
    "C03",
    "Unusable windows are refused and leave the running total untouched",
    "After any history of additions, scalings, recoveries, corrections, saves and restores, adding a count that begins "
    "before the running total ends, that is in another stress unit, or that is not a count raises a type error, and a "
    "window with missing samples (NaN) or a stored record with unknown or contradictory fields is refused with an "
    "error instead of being counted. A refusal changes neither operand, and the next good window is accepted as if "
    "nothing had happened. A count that is in time order and in the same unit is never refused.",
    ["histories", "fault_sequences", "schedules"],
    "every delivery order with duplicates, late and early arrivals, clock jumps, foreign units and corrupted payloads, "
    "after every history of operations on the total",
    "The tests try one late and one foreign-unit addition on freshly counted windows; a total that was scaled, "
    "recovered, corrected or restored is never offered a late or foreign window.",
    [CC, RF],
    [("addition checks", f"{CC}:_cycle_count_add_checks"),
     ("NaN check", f"{RF}:findcross"),
     ("record field check", f"{CC}:_assess_json_keys")],
    [("time_sequence", "time stamps of all windows in a total", CC), ("unit", "stress unit", CC)],
    ["exception type, operands after the refusal, next accepted total"],
)
prop(
    "C04",
    "Saving and restoring a count conserves its cycles",
    "Exporting a count to a plain record, storing it as JSON text and loading it back, any number of times and with "
    "further windows added in between, keeps the number of full cycles, the number and size of half cycles, the total "
    "number of cycles including those below the threshold, and the residual sequence, up to the export rounding, and "
    "makes no entry that counts no cycle. "
    "Exporting does not change the count, and loading the same record again gives an equal count. The same is kept of a "
    "window that is recorded straight from its samples as a binned record, with or without its sample times.",
    ["histories", "crash_points", "configurations"],
    "every sequence of save, crash, restore and add, every export setting (tolerance, rounding, gap length, legacy "
    "format), every binning",
    "The tests round-trip single fixed counts once; repeated generations, additions between saves and restored totals "
    "saved again are not reached.",
    [CC, HI],
    [("export", f"{CC}:as_dict"), ("record from samples", f"{HI}:binned_rainflow"), ("binning", f"{HI}:rainflow_binner"),
     ("threshold split", f"{HI}:rainflow_threshold"),
     ("import", f"{CC}:_build_input_data_from_json")],
    [("nr_small_cycles", "cycles below the threshold", CC)],
    ["restored counts after each generation"],
)
prop(
    "C05",
    "Damage-critical cycles survive storage exactly, the others stay in their bin",
    "In any chain of saves, restores, windows recorded straight as binned records and additions of counts with the same "
    "bins, a full cycle that matters for damage "
    "(its damage exceeds the export tolerance relative to the largest cycle and its bin centre would misstate it by "
    "more than the tolerance) is stored with its own range and mean up to rounding. Every other full cycle is restored "
    "at a bin centre no further than half a bin width from its true range and from its true mean, and never drifts "
    "further in later generations.",
    ["histories", "crash_points", "configurations"],
    "every spectrum, every number of save/restore generations, every tolerance, exponent, gap length and bin setting",
    "Tests compare one exported dictionary with stored values; drift over generations and values lying on bin edges "
    "after arithmetic are not exercised.",
    [HI, UT, CC],
    [("large-cycle selection", f"{HI}:rainflow_binner"), ("bin edges and indices", f"{UT}:FatigueStress"),
     ("bin centres on import", f"{CC}:_build_input_data_from_json")],
    (),
    ["full cycles of restored counts"],
)
prop(
    "C06",
    "An operation interrupted at any instant leaves its inputs intact",
    "If counting, adding, summing with progress, scaling, recovering, correcting, exporting, aggregating or assessing "
    "damage is aborted at any point (keyboard interrupt, memory exhaustion, a warning raised as an error, a broken "
    "output stream), every count, curve and table given to it still has the value it had before, apart from result "
    "columns the operation adds to a table. Repeating the operation afterwards gives exactly what an undisturbed run "
    "gives, and so do all later operations.",
    ["crash_points", "fault_sequences", "histories"],
    "every operation, every point of its execution at which an exception can appear, every kind of interruption",
    "No test interrupts anything; in-place updates in the middle of an operation are invisible when it completes.",
    [CC, HI, CU, SL, CG, SN],
    [("operations build new objects", f"{CC}:__add__"),
     ("thresholding works on helper objects", f"{HI}:rainflow_threshold"),
     ("correction works on a copy", f"{CC}:mean_stress_correction")],
    (),
    ["operands and shared state after the exception, result of the retry"],
)
prop(
    "C07",
    "Shared counts and curves give every thread the answer it would get alone",
    "When several threads use the same counts, curves, geometries and input arrays at the same time (counting, adding, "
    "scaling, recovering, correcting, exporting, assessing damage, growing cracks, evaluating curves), each call returns, "
    "under every interleaving, exactly what it returns when run alone. No shared object changes value.",
    ["schedules", "programs"],
    "every interleaving of the threads' steps, every mix of operations on shared objects",
    "The test suite is single threaded.",
    [CC, HI, SL, SN, PC, CG, UT],
    [("results are new objects and helpers are local", f"{CC}:CycleCount"),
     ("class-level state limited to curve ids", f"{SN}:color_setter")],
    (),
    ["return values per thread, shared objects after the run"],
)
prop(
    "C08",
    "Batch curve evaluation does not depend on how the work is split",
    "Evaluating an S-N or crack-growth curve for a batch of values gives, for every element, the value obtained by "
    "evaluating that element alone, for every division of the batch over parallel workers, every order in which the "
    "workers proceed and every batch size. The input batch and the curve are not modified.",
    ["schedules", "configurations", "inputs"],
    "every partition of the loop over workers, every interleaving of the workers' steps, every batch",
    "Tests run the compiled kernels on small arrays on one machine; a loop-carried dependency or a shared scratch value "
    "shows only for particular splits.",
    [SN, PC],
    [("independent loop iterations", f"{SN}:_calc_cycles"), ("independent loop iterations", f"{SN}:_calc_stress"),
     ("independent loop iterations", f"{PC}:_calc_growth_rate"), ("independent loop iterations", f"{PC}:_calc_sif")],
    (),
    ["returned arrays per schedule"],
)
prop(
    "C09",
    "Unit, time span, scale factor and bins survive every chain of operations",
    "After any chain of adding, scaling, recovering and correcting, a count has the stress unit of its inputs, lists "
    "exactly the time stamps of the windows in it in ascending order with the oldest as its own, and carries the "
    "product of the applied scale factors. Scaling multiplies ranges, means, residuals and bin geometry by the factor "
    "and leaves counts, small cycles and time stamps alone; adding keeps the lowest bin bounds and the widest bins; "
    "recovering and correcting keep all of these.",
    ["histories", "programs"],
    "every chain of operations, in every order, over every set of windows",
    "Tests look at one attribute after one operation; attributes dropped by one step and missed by a later one need a "
    "chain.",
    [CC],
    [("attributes handed to the new count", f"{CC}:__add__"), ("scaling", f"{CC}:_multiplication_by_scalar"),
     ("recovery", f"{CC}:_solve_lffd"), ("correction", f"{CC}:mean_stress_correction")],
    [("unit, stress_concentration_factor, time_sequence, bin bounds", "bookkeeping of a count", CC)],
    ["attributes after each step"],
)
prop(
    "C10",
    "Mean-stress correction is applied exactly once, to the recovered spectrum",
    "Correcting a count returns a new count whose ranges are the correction formula applied once to each cycle of the "
    "low-frequency-recovered spectrum, with the same cycle counts, and labels it as corrected. Correcting a count that "
    "is already corrected returns it unchanged, also when a correction is retried after a failure, scaled in between, "
    "or requested by several users of the same total. The count being corrected keeps its own ranges and means, also "
    "when pulsating loading is enforced on it.",
    ["histories", "fault_sequences"],
    "every history of adding, recovering, scaling, failed and repeated corrections, every correction type",
    "Tests correct one fixed count once; double correction after a retry or through a scaled copy, and overwriting of "
    "the source, need a history.",
    [CC, MS],
    [("already-corrected check", f"{CC}:mean_stress_correction"), ("recovery first", f"{CC}:mean_stress_correction"),
     ("label kept by scaling and recovery", f"{CC}:_multiplication_by_scalar")],
    [("mean_stress_corrected", "label of the applied correction", CC)],
    ["ranges, means, counts and label of results and sources"],
)
prop(
    "C11",
    "Crack growth can be stopped and resumed at any cycle",
    "Growing a crack through a load history in one go, or in any number of consecutive pieces each started from the "
    "depth the previous piece reached, gives the same depth, stress-intensity and geometry-factor history, the same "
    "failure verdict and the same life, and agrees with integrating the growth law cycle by cycle. A history given as "
    "clustered cycles grows the crack as the same cycles listed one by one, and the table form reports these values on "
    "the row they belong to, with blanks after failure. Both forms refuse a history whose stress unit is not the "
    "curve's.",
    ["crash_points", "histories", "inputs"],
    "every stop and restart point, every number of pieces, every load history incl. failure inside a piece",
    "Tests run fixed spectra to the end once; continuation from a saved depth and failure at each possible cycle are "
    "not reached.",
    [CG, GE, UT],
    [("sequential integration", f"{CG}:CalcCrackGrowth.calc_crack_depth"),
     ("splitting of clustered cycles", f"{CG}:get_crack_growth"),
     ("row mapping", f"{CG}:CrackGrowth.calc_growth")],
    [("crack_depth", "depth before each cycle", CG)],
    ["depth, sif, geometry factor, failure flag, life, table columns"],
)
prop(
    "C12",
    "Period aggregation assigns every window to its period exactly once",
    "Aggregating a time-indexed table of counts by any period, or as a whole, gives for each period that has rows the "
    "total of exactly the windows stamped inside it, low-frequency recovered when it spans more than one, plus the mean "
    "of the other columns ignoring missing values. Outages, missing cells, wholly missing periods and clock jumps of "
    "the loggers neither move a window to another period nor lose or repeat one, tables that are not in strict time "
    "order are refused, and the table itself is left as it was. Residual sequences saved along with it are those left "
    "of each period's windows, one period after the other.",
    ["schedules", "fault_sequences", "configurations"],
    "every pattern of outages, missing cells and clock jumps, every period length, every set of columns",
    "The tests aggregate one complete fixture; wholly missing periods, single-row periods and gaps at period edges are "
    "not reached.",
    [CU, CC],
    [("grouping by period", f"{CU}:aggregate_cc"), ("summing a group", f"{CC}:pbar_sum"),
     ("recovery per group", f"{CU}:solve_lffd"), ("index checks", f"{CU}:aggregate_cc")],
    (),
    ["aggregated table, saved residuals, source table"],
)
prop(
    "C13",
    "Miner damage is additive over any split of the load history",
    "The damage of a total equals the sum of the damages of its parts, for every way the history is split into windows, "
    "regrouped, saved without loss, restarted and added up, as long as no cycles are recovered in between; recovered, "
    "scaled or corrected totals have the damage of their own cycles. All ways of asking (per-cycle damage of arrays, of "
    "a count, of its table form, of an aggregated table with one or several curves) give the same damage, and asking in "
    "the wrong stress unit is refused.",
    ["histories", "schedules", "configurations"],
    "every split and regrouping of every history, every S-N curve with knees and endurance, every query path in any order",
    "Tests compute damages of single fixed spectra; additivity over splits and agreement of all query paths over "
    "histories are not compared.",
    [SL, CU, SN, CC],
    [("per-cycle damage", f"{SL}:calc_pm"), ("table accessor", f"{SL}:PalmgrenMiner.damage"),
     ("aggregated damage", f"{CU}:calc_aggregated_damage")],
    (),
    ["damage values per path"],
)
prop(
    "C14",
    "Curves created concurrently get distinct ids and the colours in order",
    "Curves created without an explicit colour, by any number of threads and interleaved with curves that do set one, "
    "all get distinct, increasing ids and each gets the palette colour belonging to its position in creation order. "
    "A curve created with an explicit colour keeps exactly that colour. A failed or interrupted creation never makes "
    "two later curves share an id.",
    ["schedules", "crash_points", "histories"],
    "every interleaving of concurrent constructors, every mix of explicit and automatic colours, every failing "
    "constructor",
    "Tests create curves one after another in a single thread.",
    [SN, PC],
    [("counter and colour cycle under a lock", f"{SN}:color_setter")],
    [("calls, color, cycle_color_list", "process-wide curve counter and palette position", SN)],
    ["id and color of every curve created in a run"],
)
prop(
    "C15",
    "Repeated damage assessments of one table do not contaminate each other",
    "Any sequence of damage, shift-factor and equivalent-stress assessments on the same cycle table, with different "
    "curves and with failing calls in between, leaves the cycles of the table unchanged, and each assessment gives the "
    "result it would give on a fresh table. A failing assessment (wrong unit, unsuitable curve) leaves the results of "
    "the previous one in place or absent, never a mixture of two assessments.",
    ["histories", "fault_sequences"],
    "every order and repetition of assessments with different curves and failing calls in between",
    "Each test assesses a fresh table once.",
    [SL, CC],
    [("result columns overwritten together", f"{SL}:PalmgrenMiner.damage"),
     ("unit check before any change", f"{SL}:PalmgrenMiner.damage"),
     ("shift factor", f"{SL}:Gassner.g")],
    (),
    ["table columns after each assessment"],
)
prop(
    "C16",
    "Sample signals are reproducible and leave the program's randomness alone",
    "The sample-signal generator returns the same signal for the same seed and arguments whatever random numbers the "
    "rest of the program and other threads draw before, during or after the call, and it spans the requested range. Calling it does not change the random "
    "numbers the rest of the program gets.",
    ["schedules", "histories"],
    "every interleaving of generator calls with other uses of the process-wide random state",
    "Tests call the generator alone with one seed.",
    [TE],
    [("private generator", f"{TE}:get_random_data")],
    (),
    ["returned signal, state of the process-wide random generator"],
)
prop(
    "C17",
    "Approximate recovery uses every window's extremes exactly once, in order",
    "Recovering a total in min-max mode gives its full cycles plus the cycles counted on the sequence of each window's "
    "lowest and highest residual in time order, for every history of additions, bracketings, missing entries and "
    "scalings. A total already recovered in this mode that is added to counts as one window, with its own lowest and "
    "highest residual. Recovering in either mode a second time, or where there are too few turning points, returns the count "
    "unchanged.",
    ["histories", "schedules"],
    "every history of additions, bracketings, missing entries, scalings and repeated recoveries",
    "Tests recover one fixed sum in this mode.",
    [CC],
    [("extremes concatenated on addition", f"{CC}:__add__"), ("recovery checks", f"{CC}:_lffd_checks")],
    [("min_max_sequence", "lowest and highest residual of each window", CC)],
    ["cycles of the recovered count"],
)

prop(
    "C18",
    "A drawing goes to the axes it is given and nowhere else",
    "Drawing a count, its residual sequence, the residuals of an aggregated table, a damage table, an S-N or crack growth "
    "curve, a crack or a mean stress correction shows that object's own data on the axes or figure it is given, or in one new figure when none is given, and adds to what is there. "
    "Whatever other figures are open, whichever of them is current before or becomes current during the drawing, and "
    "whatever was cleared, closed or aborted before, the picture is the one the same drawings give alone, and other "
    "figures, other axes, the plotting settings of the program and the drawn objects stay as they were. The SVG preview "
    "of a curve leaves no figure open.",
    ["histories", "schedules", "fault_sequences", "crash_points"],
    "every sequence of drawings on any set of figures, every change of the current figure in between and during a "
    "drawing, every failing or interrupted drawing",
    "The tests draw one curve in one new figure.",
    [CC, HI, CU, SL, SN, PC, UT, MS, GE],
    [("choice of figure and axes", f"{UT}:make_axes"), ("count pictures", f"{CC}:plot_histogram"),
     ("damage picture", f"{SL}:PalmgrenMiner.plot_histogram"), ("S-N picture and preview", f"{SN}:SNCurve.plot"),
     ("crack growth picture and preview", f"{PC}:ParisCurve.plot"), ("crack picture", f"{GE}:HollowCylinder.plot"),
     ("correction pictures", f"{MS}:dnvgl_mean_stress_correction")],
    (),
    ["artists, labels, grids, ticks and limits of every open figure, matplotlib settings, drawn objects"],
)

prop(
    "C19",
    "Using the library leaves the program around it as it was set up",
    "Importing py_fatigue and any sequence of its operations, whether they succeed, are refused or are aborted at any "
    "instant, leaves the process-wide settings as the program chose them: numpy's error handling and print options, pandas "
    "options, warning filters and the way warnings are displayed, the random states, matplotlib and plotly defaults, the "
    "decimal context, locale, environment variables and working directory, standard streams, hooks and signal handlers, "
    "logging, and the functions and classes of numpy, pandas and the standard library.",
    ["histories", "fault_sequences", "crash_points", "inputs"],
    "every settings a program may have, every sequence of completed, refused and interrupted operations",
    "The tests look at results, never at what is left of the surroundings; warnings are captured by pytest.",
    [CC, HI, CU, SL, CG, SN, PC, UT, MS, GE, TE],
    [("display of warnings", "py_fatigue/styling.py:py_fatigue_warn"), ("interactive picture", f"{SN}:SNCurve.plotly"),
     ("progress output", f"{CC}:pbar_sum"), ("aggregation", f"{CU}:aggregate_cc"), ("sample signals", f"{TE}:get_random_data")],
    (),
    ["all listed settings before and after every operation"],
)

PURE = "pure function of its input: no schedule, clock, fault, crash point or shared state in it"

prop(
    "C20",
    "S-N and crack-growth curves follow their law and invert each other",
    "Cycles to failure and stress range (and growth rate and stress intensity) computed from a curve satisfy its "
    "piecewise power law with knees, endurance or threshold and critical limits, and the two directions are inverse on "
    "the curve's domain.",
    ["inputs"], "every curve and every argument", "Tests sample a few curves.", [SN, PC],
    [("kernels", f"{SN}:_calc_cycles"), ("kernels", f"{PC}:_calc_growth_rate")],
)
prop(
    "C21",
    "A single record is counted as the rainflow standard prescribes",
    "The cycles counted from one record are those of the ASTM rainflow procedure on its turning points, whatever the "
    "sampling between turning points.",
    ["inputs"], "every record", "Tests sample a few records.", [RF],
    [("counting loop", f"{RF}:findrfc_astm")],
)
prop(
    "C22",
    "Mean-stress correction formulas match their standards",
    "The corrected range of a cycle is the one DNVGL-RP-C203, Walker or Smith-Watson-Topper prescribe for its mean and "
    "amplitude.",
    ["inputs"], "every cycle and factor", "Tests sample a few cycles.", [MS],
    [("formulas", f"{MS}:dnvgl_mean_stress_correction")],
)
prop(
    "C23",
    "Damage-equivalent stress and moment reproduce the spectrum's damage",
    "The constant-amplitude equivalent stress or moment over the reference number of cycles causes the same power-law "
    "damage as the spectrum it stands for.",
    ["inputs"], "every spectrum and slope", "Tests sample a few spectra.", [SL],
    [("formula", f"{SL}:calc_des")],
)
prop(
    "C24",
    "Nonlinear damage rules follow their recursion",
    "Each nonlinear rule accumulates the damage of the load blocks in the order given, with the exponents its authors "
    "define.",
    ["inputs"], "every block sequence", "Tests sample a few sequences.", [SL],
    [("recursion", f"{SL}:calc_nonlinear_damage")],
)
prop(
    "C25",
    "The crack geometry factor matches its closed form and blocks through-cracks",
    "The geometry factor of a crack in a hollow cylinder is its closed form for depths below the wall thickness and "
    "zero from there on; impossible geometries are rejected.",
    ["inputs"], "every geometry and depth", "Tests sample a few geometries.", [GE, "py_fatigue/geometry/generic.py"],
    [("closed form", f"{GE}:f_hol_cyl_01")],
)
prop(
    "C26",
    "Histogram plots count every cycle once",
    "The two-dimensional histogram of means and ranges holds every sample inside its edges once.",
    ["inputs"], "every sample and every set of edges", "Tests sample a few.", [HI],
    [("histogram", f"{HI}:make_histogram")],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
