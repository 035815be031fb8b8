#!/usr/bin/env python3
"""Writes properties.jsonl (the text of every property lives here, once)."""
import json, pathlib

CC = "py_fatigue/cycle_count/cycle_count.py"
RF = "py_fatigue/cycle_count/rainflow.py"
HI = "py_fatigue/cycle_count/histogram.py"
CU = "py_fatigue/cycle_count/utils.py"
UT = "py_fatigue/utils.py"
SN = "py_fatigue/material/sn_curve.py"
PC = "py_fatigue/material/crack_growth_curve.py"
SL = "py_fatigue/damage/stress_life.py"
CG = "py_fatigue/damage/crack_growth.py"
MS = "py_fatigue/mean_stress/corrections.py"
GE = "py_fatigue/geometry/generic.py"
CY = "py_fatigue/geometry/cylinder.py"
TE = "py_fatigue/testing.py"

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Derived cycle counts keep the stress unit of their operands",
     "A cycle count obtained from other cycle counts - by summation, scaling with a stress concentration factor, "
     "resolution of the low-frequency residuals or mean stress correction - reports the stress unit of its operands, "
     "whatever that unit is. A cycle count built from a time series or from an exported dictionary reports the unit "
     "the caller passed.",
     ["inputs", "histories"], "all units, all operand states (resolved or not, corrected or not, with or without residuals), all chains of operations",
     "Every test uses the default unit, so an operation that silently resets it to the default cannot be seen; the loss only matters later, when the unit guard of a damage calculation lets a wrong unit through.",
     [CC], [("explicit field-by-field construction of the result at every operation", CC + ": CycleCount.__add__, _multiplication_by_scalar, _solve_lffd, CycleCount.mean_stress_correction, CycleCount.from_timeseries, CycleCount.from_rainflow")],
     ["the unit of the returned cycle count"], [("unit", "stress unit of ranges, means and residuals", CC + ": CycleCount.unit")])

prop("C02", "Mismatched stress units never produce a damage or crack growth result",
     "Every entry point that turns cycle data with a known stress unit plus a material curve into a damage or a crack "
     "growth result raises an error, before modifying anything the caller can see, whenever the stress unit of the data "
     "is not the stress unit of the curve, and never raises that error when the two units agree. Summing two cycle "
     "counts whose units differ is refused in the same way.",
     ["inputs"], "all pairs of units and all entry points (functions and table accessors)",
     "The tests try one mismatching pair on some of the entry points; a guard that is missing on one route, tests containment instead of equality, or runs after the table was modified is not reached.",
     [SL, CG, CC], [("unit comparison at the start of each entry point", SL + ": get_pm, get_nonlinear_damage, PalmgrenMiner.damage; " + CG + ": get_crack_growth, CrackGrowth.calc_growth"), ("unit comparison in the sum checks", CC + ": _cycle_count_add_checks")],
     ["exceptions of the entry points"])

prop("C03", "Operations never modify the objects, arrays and dicts passed to them",
     "No public operation on cycle counts, material curves, crack geometries, damage, mean stress correction, rainflow "
     "counting, binning or aggregation changes the contents of an object, array, list, dictionary or table received "
     "from the caller, including the operands of operators. The only exceptions are the table accessors, which add their "
     "documented result columns and attributes, attribute setters, and the formatting of given plot labels.",
     ["inputs", "histories"], "all inputs and all execution paths, including early returns that hand back the operand itself",
     "Tests look at results and rarely compare the inputs before and after; in-place updates happen only on particular paths (array dtype, residual length, already resolved operand), so they pass unnoticed.",
     [CC, RF, HI, UT, SN, PC, SL, CG, MS, CU, CY],
     [("results are built from freshly allocated arrays or explicit copies", CC + ": CycleCount.mean_stress_correction (deep copy); " + MS + ": dnvgl_mean_stress_correction; " + RF + ": findrfc_astm work arrays")],
     ["arguments after the call"])

prop("C04", "Summing cycle counts keeps every cycle and all bookkeeping of both",
     "The sum of two cycle counts lists all (count, range, mean) triples of the first operand followed by all of the second, "
     "still paired, chains the residual sequences and the extreme sequences in the same order, adds the numbers of small "
     "cycles, takes the smallest bin lower bounds and the largest bin widths, the earliest timestamp, the union of the time "
     "sequences and the mean stress concentration factor. Adding nothing (None, zero or NaN) on either side returns the "
     "operand itself, and an operand that starts before the end of the first is refused. The sum is never marked as resolved "
     "or mean stress corrected.",
     ["inputs", "histories"], "all operand pairs, with and without residual sequences on either side",
     "The tests sum two or three fixed counts and compare sorted values, which hides mis-paired or re-ordered entries, and never vary small cycles, bin definitions or a missing residual sequence together.",
     [CC], [("parallel concatenation", CC + ": CycleCount.__add__"), ("envelope of bins", CC + ": _handling_different_bins_in_sum"), ("refusals", CC + ": _cycle_count_add_checks"), ("neutral elements", CC + ": CycleCount.__radd__")],
     ["fields of the sum"])

prop("C05", "Scaling by a stress factor scales stresses only, and all of them",
     "Multiplying a cycle count by a number from either side multiplies every stress-valued quantity it carries - ranges, "
     "means, residual and extreme sequences, bin lower bounds and widths, and the cumulative stress concentration factor - "
     "by exactly that number. Cycle counts, number of small cycles, timestamps, resolution and correction status are carried "
     "over unchanged, and anything other than a plain number is refused.",
     ["inputs"], "all cycle counts and all factors",
     "The tests compare a few fields for a count that has no small cycles and a single timestamp; fields that are dropped or reset to defaults are equal there by coincidence.",
     [CC], [("field-by-field scaled construction", CC + ": _multiplication_by_scalar")], ["fields of the product"])

prop("C06", "Resolving residuals replaces only half cycles and keeps everything else",
     "Resolving the low-frequency residuals keeps each full-cycle entry of the operand (count, range and mean together) exactly "
     "once, replaces the half cycles by the rainflow count of the selected residual (or extreme) sequence, stores the residual "
     "sequence of that count, and marks the result as resolved. Timestamp and time sequence, name, bin definition, small-cycle "
     "number, stress concentration factor and correction status are those of the operand. An operand that is already resolved, "
     "has no residual sequence or fewer than three residual points is returned as it is, and an unknown mode is refused.",
     ["inputs", "histories"], "all operands, both modes and their spellings, all early-return conditions",
     "Tests resolve one sum in one mode and compare the extremes of the ranges; the pairing of the retained entries, the metadata, and the degenerate operands are not examined.",
     [CC, RF], [("selection of entries above one half and recount", CC + ": _solve_lffd"), ("mode table and early returns", CC + ": _lffd_checks")], ["result of the resolution"])

prop("C07", "Mean stress correction changes ranges and means once, and nothing else",
     "A mean stress corrected cycle count has the cycle counts, timestamps, name, bin definition, small-cycle number, residual "
     "and extreme sequences, stress concentration factor and resolution status of the (resolved) operand, the ranges given by "
     "the selected correction law applied entry by entry, means of half the corrected range (DNV) or zero (Walker, Smith-Watson-Topper), and is marked with the law used. A count that is already corrected is "
     "returned unchanged instead of being corrected twice, an all-zero mean stress is refused unless a pulsating load is "
     "enforced, and an unknown law is refused.",
     ["inputs", "configurations"], "all operands, all laws and spellings, all keyword configurations",
     "Tests compare corrected ranges for four fixed counts; metadata and double application are not examined.",
     [CC, MS], [("law dispatch and field-by-field construction", CC + ": CycleCount.mean_stress_correction")], ["fields of the corrected count"])

prop("C08", "Mean stress laws: documented formula, bounded factor, stress homogeneous",
     "The DNV correction multiplies every stress range by a factor f that is 1 for cycles entirely in tension, p (or 0 for base "
     "material) for entirely compressive ones, (max + p|min|)/(max + |min|) in between, and accepts only p = 0.6 or 0.8. "
     "Walker's correction is max^(1-gamma) * amplitude^gamma and Smith-Watson-Topper is Walker with gamma one half. All "
     "three are computed entry by entry and scale linearly with stress.",
     ["inputs"], "all stress states, all admissible factors",
     "The tests evaluate the laws at four fixed histories, where few entries are compressive or entirely tensile; the boundaries are not crossed systematically.",
     [MS], [("elementwise formula with masks", MS + ": dnvgl_mean_stress_correction, walker_mean_stress_correction, swt_mean_stress_correction")], ["corrected ranges"])

prop("C09", "Rainflow counts are equivariant under shift and scaling of the signal",
     "Adding a constant to a signal shifts the cycle means and the residual samples by that constant and leaves amplitudes, "
     "counts, indices and durations unchanged. Multiplying a signal by a positive number multiplies amplitudes, means and "
     "residual samples by it and leaves counts, indices and durations unchanged. No absolute tolerance, rounding or "
     "fixed level enters turning point detection or cycle closure.",
     ["inputs"], "all signals, all offsets and all positive factors",
     "The tests count fixed example signals with stresses of order one; a tolerance or a rounding that acts only at another magnitude or offset cannot show.",
     [RF], [("comparisons of differences only", RF + ": findextrema, findcross, _findrfc3_astm, _findrfc5_astm")], ["rainflow output arrays"])

prop("C10", "Rainflow extraction accounts for every turning point exactly once",
     "Whenever a cycle is extracted, its amplitude and mean come from the two turning points of the inner interval, a full cycle "
     "removes exactly those two points from the pending sequence, a half cycle removes exactly the first one, and one row is "
     "written; at the end each pending interval gives exactly one half cycle, and the returned rows are exactly the rows written. Hence, "
     "if the turning points alternate, twice the sum of the counts equals their number minus one.",
     ["inputs"], "all sequences of distinct consecutive turning points",
     "Example based tests fix the output of a few signals; losing or duplicating an interval needs particular nestings of ranges.",
     [RF], [("stack discipline of the extraction loop", RF + ": _findrfc3_astm, _findrfc5_astm"), ("row count", RF + ": findrfc_astm")], ["rainflow output arrays"])

prop("C11", "Residual sequences are samples of the signal at the reported indices",
     "The residual sequence returned with a rainflow count is the input signal evaluated at exactly the residual indices returned "
     "next to it, the residual times are the time array at the same indices, the indices are the start points of the half cycles in "
     "order followed by the last sample, and the counted points are the first sample, the turning points and the last sample.",
     ["inputs"], "all signals with at least one turning point, with and without a time array",
     "The tests compare residual values of few signals without a time array and never the correspondence of the index, value and time outputs.",
     [RF], [("one index array used for all outputs", RF + ": rainflow"), ("turning point index assembly", RF + ": findtp")], ["extended rainflow output"])

prop("C12", "Binning places every cycle in exactly one of histogram, list or count",
     "When a cycle count is exported, each entry whose range is below the lower range bound adds one to the number of small cycles; of "
     "the others each full cycle adds exactly one to the one histogram cell its mean and range belong to or one row with its mean and range to the large-cycle list, and each half cycle "
     "gives exactly one residual row. A full cycle is listed if its share of the largest damage and the relative error of its cell's damage both exceed the tolerance, and otherwise only if the limit of empty cells is passed.",
     ["inputs", "configurations"], "all cycle counts, all tolerances, both export layouts",
     "One fixed count is exported in the tests; a cycle that falls in neither or both places needs a particular tolerance or gap.",
     [HI, UT, CC], [("if/continue split of the binning loop", HI + ": rainflow_binner"), ("threshold selection", HI + ": rainflow_threshold"), ("full/half split", UT + ": split_full_cycles_and_residuals, calc_full_cycles, calc_half_cycles")], ["exported dictionary"])

prop("C13", "Every exported dictionary can be imported, key by key",
     "Every key an export writes, in either layout and also when the count has no full or no half cycles, is accepted by the import and "
     "every key the import needs is written by the export, so that a count keeping at least one cycle can be exported and imported with all its cycles. The import pairs counts, means and ranges entry by entry (histogram "
     "cells, then large cycles, then residuals), puts cell k at lower bound plus (k + 1/2) widths on both axes, and rejects unknown or contradictory keys.",
     ["inputs", "configurations"], "all exported dictionaries, both layouts, legacy key spellings, empty sections",
     "Round trips are tested for one count that has full cycles, residuals and large cycles at once.",
     [CC, HI], [("key table and aliases", CC + ": _assess_json_keys"), ("import assembly", CC + ": _build_input_data_from_json"), ("export assembly", HI + ": _build_binned_dict, initialise_binned_rainflow_dict; " + CC + ": CycleCount.as_dict")], ["dictionaries accepted and rebuilt counts"])

prop("C14", "S-N curve: life is the longest of the segments and infinite past endurance",
     "The life at a stress range S is the largest over all segments of 10^intercept * S^-slope and becomes infinite when it exceeds "
     "the endurance; the stress at a life N is the largest over all segments of (10^intercept / N)^(1/slope), but not below the stress of the last "
     "segment at the endurance. Both are computed entry by entry, are the same for scalars, lists and arrays, and invert each other on each segment.",
     ["inputs", "configurations"], "all slopes, intercepts, endurance limits, stress ranges and lives",
     "The tests evaluate a handful of DNV curves; segment order, exact endurance boundary and mixed segments are not covered.",
     [SN], [("kernels", SN + ": _calc_cycles, _calc_stress"), ("scalar/array adapter", SN + ": ensure_array")], ["SNCurve.get_cycles, SNCurve.get_stress"])

prop("C15", "Knee points lie on both adjacent segments of the curve",
     "Each knee of an S-N or crack growth curve is the intersection of the two adjacent segments: evaluating either segment law at the "
     "knee abscissa gives the reported knee ordinate. A curve with one segment has no knee, the number of knees given for checking must match, and all "
     "parts of the library that need knees of a crack growth curve use the same formula.",
     ["inputs"], "all multi-segment curves",
     "The tests check knees of standard two-slope curves to two significant digits only.",
     [SN, PC, CG], [("knee formulas", SN + ": SNCurve.get_knee_stress, SNCurve.get_knee_cycles; " + PC + ": ParisCurve.get_knee_sif, ParisCurve.get_knee_growth_rate, _calc_growth_rate, _calc_sif; " + CG + ": CalcCrackGrowth.get_knees_sif")], ["knee arrays"])

prop("C16", "Crack growth law: zero below threshold, infinite above critical, invertible",
     "The growth rate is 0 below the threshold, infinite above the critical value and intercept * SIF^slope of the segment containing "
     "the SIF in between, in the curve and in the crack growth integrator alike. The inverse returns (rate/intercept)^(1/slope) of the "
     "segment containing the rate for every rate between those at threshold and at critical, the threshold below and the critical value above.",
     ["inputs", "configurations"], "all curves, one or more segments, all SIF values and rates",
     "No test evaluates the curve class on its own.",
     [PC, CG], [("kernels", PC + ": _calc_growth_rate, _calc_sif; " + CG + ": CalcCrackGrowth.calc_growth_rate")], ["ParisCurve.get_growth_rate, ParisCurve.get_sif"])

prop("C17", "Linear damage is count over life, identically at every entry point",
     "The Palmgren-Miner damage of an entry is its count divided by the life of its own stress range, so damages of concatenated counts "
     "concatenate; the function on arrays, the function on a cycle count and the table accessor return the same values. The damage equivalent stress is "
     "(sum(count * range^m) / Neq)^(1/m) and the equivalent moment is that stress times pi/4 (ro^4 - ri^4)/ro in consistent units, again identically at "
     "every entry point, and an outer radius not above the inner one is refused.",
     ["inputs"], "all cycle data, curves and parameters",
     "Only a few sums of damage are compared; a deviation in one of the parallel entry points or in one factor can cancel or stay unobserved.",
     [SL], [("calculation functions and their wrappers", SL + ": calc_pm, get_pm, PalmgrenMiner.damage, calc_des, get_des, PalmgrenMiner.des, calc_dem, get_dem, PalmgrenMiner.dem")], ["damage results"])

prop("C18", "Nonlinear damage rules follow the recursion D <- (D + n/N)^e in load order",
     "The nonlinear damage is the last value of D <- (D + n_i/N_i)^e_i over the load sequence in order, starting from zero, with the exponents "
     "of the selected rule: the ratio of successive lives to a power, of successive relative amplitudes to a power, of successive ranges, or a constant, the last "
     "exponent of the ratio rules being one. Every spelling the interface lists selects its rule with its documented default parameters, and any other is refused.",
     ["inputs", "configurations"], "all load sequences, rules, spellings and parameters",
     "Nonlinear rules are exercised by few or no tests and only with default parameters.",
     [SL], [("rule dispatch and recursion", SL + ": calc_nonlinear_damage, get_nonlinear_damage"), ("exponents", SL + ": calc_manson_halford_exponents, calc_pavlou_exponents, calc_si_jian_exponents")], ["nonlinear damage value"])

prop("C19", "A crack never shrinks, rests below threshold and stops at failure",
     "During crack growth integration each step either leaves the depth unchanged - exactly when the stress intensity is below the "
     "threshold - or adds the growth rate times the applied number of cycles; the integration stops and reports failure when the geometry factor "
     "vanishes, the stress intensity reaches the critical value, or the depth would grow more than tenfold in one step, and reports no failure otherwise. "
     "The returned depth, intensity and factor histories have equal length, start at the initial depth, and the final cycles are those applied to that length.",
     ["inputs"], "all load histories, curves and geometries",
     "The tests compare final depths in two constant-amplitude cases without threshold, critical value or failure.",
     [CG], [("step loop", CG + ": CalcCrackGrowth.calc_crack_depth")], ["crack growth object"])

prop("C20", "Splitting blocks for crack growth conserves cycles and stress pairing",
     "Before integration, each block of n cycles at a stress range is replaced by sub-blocks of the same range whose counts add up to exactly n, "
     "in the original order, in express mode too; without failure, row k of the table reports the history at the last sub-block of block k. The function on a cycle count and the table accessor integrate the same sequence with the same curve, "
     "threshold, critical value, geometry and initial depth.",
     ["inputs", "configurations"], "all cycle counts including fractional ones, both modes",
     "Tests use integer counts and compare only the final depth within a tolerance.",
     [CG, UT], [("block splitting", CG + ": get_crack_growth, CrackGrowth.calc_growth; " + UT + ": split")], ["stress and count sequences of the crack growth object"])

prop("C21", "Only valid geometries are built and only supported ones are integrated",
     "Crack depth, diameters, thickness, height and aspect ratio must be strictly positive, a hollow cylinder's thickness must lie strictly "
     "between the initial crack depth and the outer radius, and its crack is internal or external. Crack growth is computed only for "
     "geometries that have a geometry factor - at every entry point the same ones - and any other is refused before integration; each supported geometry provides every "
     "dimension its factor needs.",
     ["inputs", "configurations"], "all geometry definitions and all entry points",
     "Tests construct few valid and invalid geometries; agreement of the acceptance lists and the factor dispatch is not tested.",
     [GE, CY, CG, UT], [("validated fields and validators", CY + ": HollowCylinder, Cylinder; " + GE + ": CrackGeometryMixin"), ("acceptance lists and dispatch", CG + ": get_crack_growth, CrackGrowth.calc_growth, get_geometry_factor"), ("dimension dictionary", UT + ": to_numba_dict")], ["exceptions, geometry identifiers"])

prop("C22", "Stress intensity and geometry factor follow the reference formula",
     "The stress intensity range is the stress range times sqrt(pi * depth) times the geometry factor, which is 1 for an infinite surface, zero for a "
     "crack through the wall of a hollow cylinder, and otherwise the published net-section bending factor of the external crack. The factor is dimensionless: it "
     "does not change when all lengths are multiplied by the same number, and intensity scales linearly with stress.",
     ["inputs"], "all depths, diameters, thicknesses and aspect ratios",
     "The factor is compared with a second implementation at a few points only.",
     [CG, CY], [("intensity and factor formulas", CG + ": get_sif, get_geometry_factor; " + CY + ": f_hol_cyl_01")], ["get_sif, f_hol_cyl_01"])

prop("C23", "Compiled parallel kernels give the same result under every schedule",
     "In every function compiled for parallel execution, the iterations of a parallel loop are independent: no iteration reads or writes a location that "
     "another one writes, and no scalar is carried from one iteration to the next. Kernels that produce or compare infinities or NaN are compiled "
     "with strict floating point rules, and loops with a carried dependency are never compiled for parallel execution.",
     ["schedules"], "all interleavings of the parallel iterations and all thread counts",
     "The material tests disable compilation, so loops run sequentially; races depend on thread count and scheduling.",
     [SN, PC, CG, RF, CY], [("prange loops writing their own index", SN + ": _calc_cycles, _calc_stress; " + PC + ": _calc_growth_rate, _calc_sif"), ("sequential depth recursion", CG + ": CalcCrackGrowth.calc_crack_depth")], ["kernel outputs"])

prop("C24", "Results depend on arguments only, never on earlier calls or ambient state",
     "Calling a public computation twice with equal arguments gives equal results whatever was computed before: computations keep no memory "
     "between calls (caches, counters, mutated defaults, module or class variables) and read neither clock, random generator, environment nor file system. They do not alter "
     "global state that other code can see, in particular not the global random generator. The default timestamp, colour and identifier assignment of curves, warning formatting, plotting state and elapsed time messages are the only exceptions.",
     ["histories"], "all sequences of calls",
     "Tests call each function on fresh data; a leak between calls needs a particular call order.",
     [CC, RF, HI, UT, SN, PC, SL, CG, MS, CU, CY, TE], [("pure functions, explicit seeds", TE + ": get_random_data; whole package")], ["results of repeated calls"])

prop("C25", "Every accepted option is implemented and every other option is refused",
     "For each interface that selects behaviour by name (correction law, damage rule, resolution mode, crossing kind, plot type, scatter order, aggregation), "
     "every name it declares as accepted, in any letter case it declares, runs to a result defined by its own branch, and every other name raises "
     "a ValueError. No path of a public operation uses a variable that the path has not assigned.",
     ["configurations", "inputs"], "all option names and all paths",
     "Tests use one or two names per option; a name accepted by the check but missing in the dispatch fails only when used.",
     [CC, SL, HI, RF], [("accept lists and dispatch chains", CC + ": CycleCount.mean_stress_correction, _lffd_checks, CycleCount.plot_histogram; " + SL + ": calc_nonlinear_damage; " + HI + ": xy_hist2d; " + RF + ": findcross")], ["exceptions and results per option"])

prop("C26", "Material curves are immutable and compared by all their parameters",
     "After construction the slope, intercept, endurance, threshold, critical value, unit and linearity of a material curve can be neither reassigned, nor changed by any computation, nor by modifying the "
     "arrays it was built from, and the values reported are those given at construction. Curves compare equal exactly if they have the same class and all attributes are equal. Slopes and intercepts of different number are refused.",
     ["inputs", "histories"], "all curves and all later operations",
     "Tests try to assign two attributes; sharing of memory with the caller's arrays and omissions in equality are not tested.",
     [SN, PC], [("private attributes behind read-only properties", SN + ": AbstractSNCurve; " + PC + ": AbstractCrackGrowthCurve"), ("length check", SN + ": _check_param_couple_types")], ["curve attributes, equality"])

prop("C27", "Malformed signals and tables are rejected, well-formed ones are not",
     "Rainflow counting raises for signals that are neither array nor list, contain NaN, or come with a time array of another type or length; stress containers raise for empty "
     "or unequally long counts and values; damage raises for unequally long counts and ranges; table accessors raise when a required column is missing or the result was "
     "already computed. The rejection happens on every route that reaches the computation, before any result is produced, and only for these reasons.",
     ["inputs"], "all malformed inputs and all routes",
     "Each rejection is tested with one example on one route, if at all.",
     [RF, UT, SL, CG, SN], [("type, NaN and length checks", RF + ": rainflow, findcross; " + UT + ": FatigueStress.__post_init__; " + SN + ": _check_param_couple_types; " + SL + ": PalmgrenMiner._validate, Gassner._validate; " + CG + ": CrackGrowth._validate")], ["exceptions"])

prop("C28", "Aggregation adds every cycle count of a group exactly once, in time order",
     "Summing a list of cycle counts equals adding its non-missing elements one after another in order, each exactly once, whatever the length of the list. "
     "Aggregating a table sums the cycle count columns of each period this way, resolves the residuals of multi-period sums, averages the other columns, and refuses an index that is not "
     "a unique, increasing time index; aggregated damage sums the damage of every cycle count column for every curve.",
     ["inputs", "histories"], "all list lengths, groupings and placements of missing elements",
     "Chunk boundaries and missing elements are tested for few lengths only.",
     [CC, CU, UT], [("chunked fold", CC + ": pbar_sum; " + UT + ": chunks"), ("guards and aggregation table", CU + ": aggregate_cc, solve_lffd, calc_aggregated_damage")], ["aggregated counts"])

prop("C29", "Full, half and residual views partition the entries of a cycle count",
     "Splitting counts into full cycles and residuals assigns every entry with an integer part to the full cycles, repeated that many times, and every entry with a "
     "fraction of one half to the residuals, with the mean and range of the same entry side by side. Stress amplitude, minimum and maximum are half the range, "
     "mean minus amplitude and mean plus amplitude; bin edges start at the lower bound, are one width apart, cover the largest full cycle, and centers lie half a width above them.",
     ["inputs"], "all cycle counts",
     "The views are compared for two hand-made counts.",
     [UT, CC], [("split, repeat and edges", UT + ": split_full_cycles_and_residuals, calc_full_cycles, calc_half_cycles, calc_bin_edges, bin_upper_bound, FatigueStress"), ("views", CC + ": CycleCount.full_cycles, CycleCount.residuals, CycleCount.stress_amplitude, CycleCount.min_stress, CycleCount.max_stress, CycleCount.bin_edges, CycleCount.bin_centers")], ["derived views"])

prop("C30", "Rainflow counting finds the hysteresis loops the ASTM standard finds",
     "For every signal with at least one turning point the extracted cycles, as a multiset of (amplitude, mean, count), are those of the ASTM E1049-85 rainflow procedure applied step by step to the first sample, the turning points and the last sample.",
     ["inputs"], "all signals with at least one turning point",
     "Published example signals are compared; the standard defines the result for every signal.",
     [RF], [("extraction loop", RF + ": _findrfc5_astm")], ["rainflow output"])

prop("C31", "Export and import reproduce damage within the requested tolerance",
     "The damage of a cycle count rebuilt from its export differs from the original by no more than the binning tolerance the export was given.",
     ["inputs", "configurations"], "all cycle counts, tolerances and exponents",
     "One count is exported with default tolerance.",
     [HI, CC], [("tolerance test of the binning loop", HI + ": rainflow_binner")], ["damage before and after"])

prop("C32", "Resolved sums reproduce the count of the concatenated signal",
     "Summing the counts of consecutive signals and resolving the residuals gives the same ranges and counts as counting the concatenated signal.",
     ["inputs", "histories"], "all signal sequences",
     "One pair of signals is compared.",
     [CC, RF], [("residual recount", CC + ": _solve_lffd")], ["ranges of resolved sum"])

prop("C33", "Crack growth integration converges when blocks are refined",
     "Refining the blocks of a load history changes the final crack depth by an amount that vanishes with the block size.",
     ["inputs"], "all histories, curves and geometries",
     "Two discretisations are compared with a tolerance.",
     [CG], [("explicit step", CG + ": CalcCrackGrowth.calc_crack_depth")], ["final depth"])

prop("C34", "Cycle counts are equal exactly when all their contents are equal",
     "Two cycle counts compare equal if and only if their cycles, sequences, times, unit, bin definitions and status agree exactly, element by element and regardless of which of them is on the left. "
     "The comparison never fails, whether or not optional contents are present, inequality is its negation, and nothing but a cycle count equals a cycle count.",
     ["inputs"], "all pairs of cycle counts that agree in all but one attribute, and all other objects",
     "Tests compare counts that differ in many attributes; a single ignored or loosely compared attribute, or a missing one, goes unnoticed.",
     [CC, UT], [("comparison of attributes", CC + ": CycleCount.__eq__; " + UT + ": compare")], ["results of comparisons"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
