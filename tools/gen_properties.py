"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


U = "ghedt/utilities.py"; S = "ghedt/search_routines.py"; D = "ghedt/design.py"; G = "ghedt/ground_heat_exchangers.py"
GF = "ghedt/gfunction.py"; DO = "ghedt/domains.py"
PL = "ghedt/peak_load_analysis_tool/"
BH = PL + "borehole_heat_exchangers.py"; EQ = PL + "equivalance.py"; GL = PL + "ground_loads.py"; RN = PL + "radial_numerical_borehole.py"; PM = PL + "media.py"

p("C01", "A save that fails or crashes never damages the file already there",
  "When saving a design input file, a JSON result file or the simulation-tool export of a finished search fails, is interrupted, or the process or machine dies at any point during it, the target path afterwards holds either exactly its previous content (or is still absent) or the complete new content, and no other user file is touched. A save that returns normally has put the complete new content at the target. A save whose file operations fail raises to the caller instead of returning as if it had succeeded, and a save that merely failed leaves no stray files behind.",
  ["crash_points", "fault_sequences", "inputs"],
  "For every document and design, every sequence of earlier saves to the path, and every placement of one or more of: disk full, I/O error, short write, failing close/flush/rename, unserialisable content, an interrupt between any two file operations, process crash, power loss with any subset of unsynced data and metadata lost.",
  "The tests never write a file; nothing in the suite fails a write, kills a writer or looks at the disk afterwards.",
  [U, S],
  [("write to a temporary file, flush, fsync, then replace", U + " _atomic_write, used by create_input_file and js_dump"), ("export builds the whole document before writing", S + " oak_ridge_export")],
  [("target file", "previous or complete new content", "the path given plus .obj or .json")],
  "content of the simulated disk after the operation, after a process crash, and after power loss")

p("C02", "A saved design or result reloads as exactly what was saved",
  "After a save of a design has returned, a new process that loads the file gets an object that behaves like the original did at the time of the save: same inputs, same candidate fields, same search outcome and same simulated temperatures; the same holds for JSON documents. An exported result file describes the finished search as it is at the time of the export: borehole length, number of boreholes, the equivalent single U-tube, and g-function pairs that equal the exchanger's own combined g-function, strictly ascending in time and ending with the standard long-time points. Later changes to the live object or re-saves elsewhere never change what an earlier save reloads as.",
  ["histories", "configurations", "crash_points"],
  "For every design (routine, heat-exchanger type, flow mode, loads), every interleaving of modify, search, size, save, re-save, export, load and process restart, with transient faults among them.",
  "No test saves, loads or exports anything, let alone in another process, after a modification or after an earlier fault.",
  [U, S, D, G],
  [("pickle of the whole design object", U + " create_input_file, read_input_file"), ("JSON dump and load", U + " js_dump, js_load"), ("export dictionary built from the live exchanger", S + " oak_ridge_export")],
  [("design object graph", "everything a search needs", D), ("search result", "exchanger and selected coordinates", S)],
  "reloaded object in a fresh process and its results")

p("C03", "Loading damaged data fails loudly and leaves no file open",
  "Loading a design input file or a JSON file that is missing, empty, cut short anywhere, or that cannot be read completely raises an exception; a load that returns has returned exactly what was stored. Every save and load, successful or failed, has closed every file it opened by the time the caller regains control, and a load never changes anything on disk.",
  ["fault_sequences", "crash_points", "inputs"],
  "For every stored design or document, every truncation point, every position of a read error or short read, and every fault or interrupt position in saves and loads.",
  "No test loads a file, damages one, makes a read fail, or counts open files.",
  [U],
  [("context-managed handles and the pickle/JSON framing checks", U + " read_input_file, js_load, create_input_file, js_dump")],
  [("open file handles", "must be none between calls", U)],
  "return value or exception, and the simulated process's table of open files")

p("C04", "Concurrent saves, loads and exports on one path are atomic",
  "When several users of one directory save, export and load the same files at the same time, every load returns one complete version that some save wrote (or the initial one, or reports absence if none was there yet), never a mixture, a partial file or an unrelated failure. Once all saves have finished, the file is complete and holds the version of a save that no other save followed, every save that met no fault has succeeded, and no temporary files remain.",
  ["schedules", "histories", "fault_sequences"],
  "For every set of concurrent savers, exporters and loaders sharing paths, every interleaving of their file operations, and crashes or I/O faults of some of them.",
  "The tests are single-threaded, single-process and do no file I/O.",
  [U, S],
  [("unique temporary name and atomic replace", U + " _atomic_write")],
  [("shared files", "one complete version at any time", "paths given by the users")],
  "values returned by concurrent loads, linearised against the save history; final disk content")

p("C05", "Output directories are created safely by any number of callers",
  "Asking for an output directory (directly or by plotting a family of fields into a folder) succeeds for every caller that meets no real file-system error, however many callers create the same, nested or sibling folders at the same time and whether or not it exists already; existing content is never removed. When the call returns normally the directory exists and, for plots, holds one image per field; when the directory cannot be created (permissions, disk full, I/O error, a file in the way) the caller gets an exception.",
  ["schedules", "fault_sequences", "histories"],
  "For every set of concurrent callers on overlapping folder trees, every interleaving of their file-system operations and every failing operation.",
  "No test creates a directory; the window between looking for a folder and creating it is invisible to single runs.",
  [U, DO],
  [("create, tolerating an existing directory", U + " create_if_not"), ("create the folder, then one image per field", DO + " visualize_domain")],
  [("directory tree", "exists after success", "output folder given by the user")],
  "outcome of each caller and the simulated directory tree")

p("C06", "A faulted calculation fails loudly and can be retried",
  "When anything a calculation depends on raises (interrupt, out of memory, numerical failure) at any point inside building, simulating, sizing, querying, printing or exporting a ground heat exchanger, its borehole heat exchanger, its equivalent or its load representation, the caller gets that failure or the undisturbed answer, never a different answer. Repeating the operation on the same objects after the fault gives the answer it would have given had the fault never happened.",
  ["fault_sequences", "histories", "configurations"],
  "For every heat-exchanger type, load profile and field, every operation, every call site the fault can strike, every occurrence, and sequences of several faults before the successful attempt.",
  "The tests run each operation once on fresh objects with nothing failing.",
  [G, GF, BH, EQ, GL, RN],
  [("every operation recomputes its derived state from the configuration", G + " GHE.simulate, GHE.size, compute_g_functions"), ("no blanket exception handlers", GF), ("root finding re-evaluates from scratch", EQ + " solve_root"), ("partial initialisation resets the solver", RN)],
  [("derived state", "height, resistances, equivalent exchanger, short-time-step g-function, tables, hybrid loads", G)],
  "exceptions and results of the retried operation versus an undisturbed twin")

p("C07", "g-function answers do not depend on earlier or concurrent queries",
  "A query to a g-function library (any spacing-to-height ratio inside or outside the stored range, any interpolation kind, with or without radius correction or coordinate scaling) returns the same values, or raises the same kind of error, as the same query on a freshly loaded copy of the same library. Earlier queries of other kinds or ranges, queries that failed or were interrupted, and queries running at the same time in other threads make no difference, and no query changes the stored curves.",
  ["histories", "schedules", "fault_sequences"],
  "For every library of one to six curves and every sequence or interleaving of queries, including interrupted ones.",
  "The tests only make in-order queries of the default kind on single-curve or freshly built libraries.",
  [GF, G],
  [("tables cached per kind and fill value, published when complete", GF + " GFunction.g_function_interpolation"), ("corrections build new lists", GF + " borehole_radius_correction, correct_coordinates")],
  [("interpolation cache", "complete tables only", GF + " GFunction.interpolation_table"), ("stored curves", "never changed by a query", GF + " GFunction.g_lts")],
  "returned values versus a fresh copy per query")

p("C08", "Designs sharing inputs do not influence each other",
  "Designs, searches and ground heat exchangers built from the same fluid, pipe, grout, soil, borehole, load list, simulation parameters, constraints, candidate fields or g-function library give the same results as if each had its own copy, in whatever order or interleaving (threads included) they are built, searched, simulated and sized. No operation of the library changes an object, list or dictionary the caller handed in.",
  ["histories", "schedules", "configurations"],
  "For every combination of routines and heat-exchanger types sharing any subset of inputs, every sequence of operations and every thread interleaving.",
  "Each test builds its own inputs and uses one object; nothing is shared or compared afterwards.",
  [D, G, S, GF, DO, GL, EQ, BH],
  [("exchanger keeps its own borehole", G + " BaseGHE.__init__"), ("equivalents use copies", EQ + " equivalent_single_u_tube"), ("loads copied before extension", G + " GHE.simulate hourly"), ("generators build new lists", DO)],
  [("caller-owned inputs", "unchanged by any operation", "arguments of Design, GHE, searches"), ("class and module attributes", "no mutable shared state", "all modules")],
  "results versus isolated twins; deep snapshots of the inputs")

p("C09", "A field search ends soundly whatever its evaluations do",
  "A search that returns has selected a field whose excess temperature, re-evaluated independently, is not positive, the excess temperatures it recorded are those of their candidates, and the ground heat exchanger it hands back is that of the selected field with a height inside the allowed range, even when the excess temperatures are not monotone over the candidates. If no candidate interval brackets a solution, or an evaluation fails, the search raises instead of returning; a search of one list whose ends bracket a solution returns one, as does any search whose first candidate alone brackets one between the least and the greatest height; an interrupted search can be repeated with the undisturbed outcome. It always ends within a number of field evaluations that grows with the logarithm of the number of candidates, and asking for progress output changes nothing.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "For every routine, heat-exchanger type and flow mode, every profile of excess temperature over the candidates (including non-monotone ones), and every evaluation that fails or is interrupted.",
  "One test searches one well-behaved domain once; no evaluation fails, is interrupted or deviates from monotone.",
  [S, D, DO],
  [("bisection with recorded excess temperatures and final re-initialisation", S + " Bisection1D.search"), ("nested searches", S + " Bisection2D, BisectionZD.search_successive"), ("dispatch", D + " Design.find_design")],
  [("recorded excess temperatures", "index of the candidate to excess", S + " calculated_temperatures"), ("current exchanger", "that of the last initialised field", S + " ghe")],
  "returned selection, recorded temperatures, exchanger; count of field evaluations")

p("C10", "Results depend only on the inputs",
  "The same inputs give the same candidate fields, design, heights, temperatures, printed reports and exported files whatever the wall clock reads or does, the state of the random number generators, the hash seed, time zone, working directory, environment variables or process, and whatever the process computed before. No calculation advances or reseeds the caller's random number generators or changes the working directory or environment.",
  ["configurations", "histories", "schedules"],
  "For every design input and every assignment of clock readings and jumps, generator states, hash seeds, environment, process and preceding work.",
  "The tests run each input once in one environment and compare with stored numbers at loose tolerance.",
  [D, S, DO, "ghedt/coordinates.py", "ghedt/feature_recognition.py", G, GF, GL, EQ, RN, U],
  [("no reads of clock, generators, environment or unordered iteration in calculations", "all modules under ghedt")],
  [("process-wide state", "clock, generators, environment, module globals", "interpreter")],
  "digests of results over simulated environments")

p("C11", "Published results come only from complete calculations",
  "The fluid and borehole-wall temperatures visible on a ground heat exchanger are always those of one complete simulation each, with one value per simulated time step: while a simulation is running, and after one that failed or was interrupted before it had computed all its time steps, the previously published lists and everything printed from them stay as they were. Likewise a failed recomputation of the g-functions leaves the previous ones in force, and a failed construction or load yields no half-built object.",
  ["fault_sequences", "schedules", "histories"],
  "For every exchanger, every operation, every point at which it can fail, and every moment at which another thread reads the results.",
  "No test fails a simulation or looks at an exchanger while one is running.",
  [G, GF, U],
  [("results assigned after the simulation is complete", G + " GHE.simulate"), ("g-function library replaced when complete", G + " BaseGHE.compute_g_functions")],
  [("published results", "temperature lists and g-function library", G + " GHE.HPEFT, GHE.dTb, GHE.GFunction")],
  "attribute reads during and after the operation")

p("C12", "An exchanger answers for its present state, not for its past",
  "Whatever sequence of height changes, simulations by either method, sizings, g-function recomputations, flow or fluid updates, reports and failed attempts a ground heat exchanger or borehole heat exchanger has been through, the next simulation, sizing or resistance update, and the reports and g-functions read after it, equal those of an exchanger built from the same inputs that was put directly into the present state. Repeating an operation without changing anything repeats its answer.",
  ["histories", "fault_sequences", "configurations"],
  "For every exchanger type and field and every finite sequence of operations and faults.",
  "The tests perform a fixed two- or three-step sequence on fresh objects.",
  [G, BH, EQ, RN, GL, GF],
  [("derived quantities recomputed on every simulation", G + " GHE.simulate"), ("resistance update re-initialises stored coefficients", BH + " update_thermal_resistance"), ("solver state reset on every solution", RN + " calc_sts_g_functions")],
  [("derived state", "must follow the configuration", G + ", " + BH + ", " + RN)],
  "each answer versus a freshly built exchanger in the same state")

NA = [
 ("N01", "Candidate fields have the requested shape, spacing and borehole count", "Every generated candidate field has exactly the boreholes of its shape (rectangle, open rectangle, C, L, U, lop-sided U, zoned) at the requested spacing, without duplicates.", ["ghedt/coordinates.py"], "coordinate generators"),
 ("N02", "Candidate fields respect the land and spacing constraints", "No candidate field extends beyond the given length and width or goes below the minimum or above the maximum borehole spacing, and candidates within a family are ordered by the number of boreholes.", [DO], "domain generators"),
 ("N03", "Polygon constraints keep exactly the allowed boreholes", "Cutting a field with a property boundary and no-go zones keeps exactly the boreholes inside the boundary and outside the zones.", [DO, "ghedt/feature_recognition.py"], "point-in-polygon cutouts"),
 ("N04", "Hybrid loads conserve monthly energy and place the peaks", "The hybrid load representation carries the same monthly ground energy as the hourly loads and places the monthly peaks on their day with their magnitude.", [GL], "monthly load processing"),
 ("N05", "A sized exchanger just meets its temperature limits", "The height found by sizing brings the extreme fluid temperature to its allowed limit within tolerance, or is the bound that comes closest.", [G, EQ], "root finding on the excess temperature"),
 ("N06", "Equivalent single U-tube preserves borehole resistances", "The equivalent single U-tube of a double U-tube or coaxial exchanger has the same effective borehole resistance, convective and pipe resistance and fluid volume.", [EQ], "equivalence root finding"),
 ("N07", "Temperatures follow temporal superposition", "Simulated borehole-wall and fluid temperatures equal the superposition of the load steps with the combined g-function.", [G, GL], "superposition loops"),
 ("N08", "g-function scaling and radius correction follow Eskilson", "Interpolated g-functions pass through the stored curves and the radius correction shifts them by the logarithm of the radius ratio.", [GF], "interpolation and correction formulas"),
 ("N09", "Search finds the optimum on a unimodal domain", "On a family over which the excess temperature decreases, the search returns the smallest field that satisfies the limits at maximum height.", [S], "integer bisection"),
]
for i, t, s, f, m in NA:
    p(i, t, s, ["inputs"], "For every valid input.",
      "The tests sample a handful of inputs; this holds for all. It depends on no schedule, clock, I/O, fault or second party.",
      f, [(m, f[0])])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fp:
    for q in P:
        fp.write(json.dumps(q) + "\n")
NAREASON = "Pure function of its inputs: no schedule, time, I/O, randomness, crash or second party that a simulation could vary, so seeded schedules and faults decide nothing about it (input generation would be property-based testing, a different technique)."
if __name__ == "__main__":
    print(len(P), [len(q["title"]) for q in P if len(q["title"]) > 80])
