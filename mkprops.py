"""Writes properties.jsonl (kept so that the wording lives in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "gridded/variable.py"; T = "gridded/time.py"; U = "gridded/pyugrid/ugrid.py"; S = "gridded/pysgrid/sgrid.py"
D = "gridded/depth.py"; G = "gridded/grids.py"; UT = "gridded/utilities.py"; DS = "gridded/gridded.py"; VD = "gridded/io/verdat.py"
RU = "gridded/pyugrid/read_netcdf.py"

prop("C01", "A query's answer does not depend on what was asked before",
 "Whatever queries were made earlier on any object, a query (interpolating a variable or vector variable, locating points or nearest nodes on a grid, asking a time axis or a depth system for indices and weights) gives the same values, mask and shape, or the same kind of error, as it would as the very first query on a freshly built identical object. This covers repeated queries, queries that differ only in one argument (point coordinates or depths in any row, the time down to the microsecond, point-array shape, extrapolation, unmasking, boundary conditions, search method, mask use), queries made after many other queries, and queries on other objects that share the same grid, time or depth. Answers are never mixed up between two objects.",
 ["histories", "inputs"],
 "for all finite histories of queries over sets of objects sharing grids, time axes and depth systems, and for every position in the history",
 "The memo caches (keyed by digests, evicted after a handful of entries) only go wrong for particular sequences: same digest with other options, eviction then return, another object's entry. Tests ask one or two questions of a fresh object.",
 [V, U, S, D, T, "gridded/pyugrid/uvar.py"],
 [("result memo", V + ": Variable.at/_get_hash/_memoize_result, VectorVariable.at"), ("index/alpha memo", U + ": locate_faces, interpolation_alphas"), ("cell index memo and trees", S + ": locate_faces, locate_nearest, build_celltree")],
 ["Variable.at", "VectorVariable.at", "grid.locate_faces", "grid.interpolate_var_to_points", "Time.index_of", "depth.interpolation_alphas"],
 [("memo dictionaries", "last few answers by digest", V + ", " + U + ", " + S)])

prop("C02", "A failed or interrupted query raises and leaves no trace",
 "When a query fails part-way because the data source cannot be read, memory runs out or the user interrupts it, at whatever point of the query that happens, the failure reaches the caller as an exception instead of an answer. Every later query on the same and related objects then gives exactly what it would have given had the failed query never been made; in particular the same query succeeds once the cause is gone.",
 ["fault_sequences", "histories", "crash_points"],
 "for all histories of queries and every point (each access to the data source, each executed line of library code) at which a read error, out-of-memory error or interrupt is delivered",
 "Tests never make a data source fail, never interrupt a query and so never reach a half-built search tree, half-computed coefficients or a half-filled cache.",
 [V, U, S, D, G, UT],
 [("lazy search trees and coefficients", S + ": _compute_transform_coeffs, build_celltree; " + U + ": build_celltree, _build_kdtree"), ("memo stores only finished results", V + ": _memoize_result")],
 ["Variable.at", "VectorVariable.at", "grid queries", "depth queries"])

prop("C03", "Concurrent queries on shared in-memory objects act as if done one at a time",
 "Several threads may query the same variables, vector variables, grids, time axes and depth systems (with in-memory data) at the same time. Under every interleaving each query returns the same answer or error as it would alone, and every query finishes.",
 ["schedules", "histories"],
 "for all interleavings (thread switches between any two executed instructions of library code) of all short query programs on shared objects, including the first use that builds search trees and coefficients and caches full enough to evict",
 "Tests are single threaded; races between cache lookup, eviction and lazy construction need a particular switch point.",
 [V, U, S, D],
 [("memo lookup/eviction", V + ": _get_memoed/_memoize_result; " + U + "/" + S + ": _get_memoed/_add_memo"), ("lazy construction", S + ": _compute_transform_coeffs, build_celltree; " + U + ": build_celltree, _build_kdtree")],
 ["return values of queries in every thread"])

prop("C04", "Callers' arrays and the library's own state never leak into each other",
 "Building an object from the caller's arrays, lists or dicts and querying it never changes those inputs (values or shape), nor the point and index arrays passed to a query. Whatever the caller later writes into an array that a query returned (values or mask), or into the point arrays, lists of times or time axes it had passed in, later answers are unaffected. Two time axes built from the same times, or one from the other, can be shifted independently.",
 ["histories", "inputs"],
 "for all histories of constructions, queries, time shifts and caller writes into returned or passed-in buffers, at any point of the history",
 "Corruption through an alias shows only when a caller writes into a buffer between two particular queries; tests compare values and throw the arrays away.",
 [V, U, S, T, UT, D],
 [("copies on the way in and out", V + ": at, _memoize_result; " + UT + ": _reorganize_spatial_data; " + T + ": __init__, get_time_array; " + U + ": faces setter, locate_faces; " + D + ": L_Depth.from_netCDF")],
 ["inputs after each call", "answers after caller writes"])

prop("C05", "Answers follow the current state after reassignment; rejected changes do nothing",
 "After the user replaces a variable's data (or the surface or bathymetry behind a depth) or time axis, its units, fill value or boundary conditions, a vector variable's time axis or a component's data, its grid or depth, shifts a time axis in place, replaces the coordinates of a rectangular grid, the levels or terms of a depth system, or replaces or removes the nodes or faces of an unstructured grid, every later query (interpolation, face or node location, weights) answers as a freshly built object with the new state would, whatever was queried before. A replacement that is rejected with an error leaves the object answering exactly as before.",
 ["histories", "fault_sequences"],
 "for all histories interleaving queries with accepted and rejected replacements of data, time, nodes and faces",
 "Stale caches only show when the same question is asked before and after a replacement; tests set state once.",
 [V, U, T],
 [("setters", V + ": Variable.data/time, VectorVariable.time; " + U + ": nodes/faces; " + T + ": tz_offset")],
 ["answers after each replacement"])

prop("C06", "A completed save is complete: it survives a crash and loads back equal",
 "Once saving a dataset or unstructured grid to netCDF, a structured grid to netCDF, or a dataset to a verdat file returns, killing the process at that instant loses nothing: loading the file gives back the same mesh name, nodes, faces, edges, boundaries and face, edge and boundary coordinates (structured: node and centre coordinates, padding and grid dimensions), and the same variables with equal values, location, units and attributes (verdat: the same points, depths, units and closed boundaries to the format's precision). This holds for any combination of optional parts and whatever file was at that path before.",
 ["crash_points", "inputs", "configurations", "histories"],
 "for all grids/datasets of every combination of optional components, sizes, element types and attribute values, all sequences of saves to the same path, and a process kill immediately after any save returns",
 "Tests write a few fixed files and read them back in the same live process with the writer still in memory.",
 [U, RU, DS, S, VD, V],
 [("write + sync/close", U + ": save/_save_variables; " + DS + ": save; " + S + ": save_as_netcdf"), ("read back", RU + ": load_grid_from_nc_dataset; " + S + ": load_grid"), ("verdat", VD + ": save_verdat/load_verdat")],
 ["state loaded by a new process after the saver was killed"])

prop("C07", "A save that storage fails never looks successful and damages nothing in memory",
 "If any write, create, truncate or close needed by a save fails (I/O error, full disk, torn write) or the save is interrupted at any point, the save does not return normally unless the file is nevertheless complete. The dataset in memory is unchanged, and once the fault is gone saving it again to the same path gives a complete file.",
 ["fault_sequences", "crash_points"],
 "for all save operations and every position of a storage fault (transient or persistent, whole or torn, short writes) or interrupt within the save",
 "Tests run on a healthy disk; no test makes a write fail or interrupts a save.",
 [U, DS, S, VD, UT],
 [("errors propagate from the netCDF layer; file closed on failure", DS + ": save; " + S + ": save_as_netcdf; " + VD + ": save_verdat; " + UT + ": get_writable_dataset")],
 ["outcome of save, file contents, in-memory dataset, second save"])

prop("C08", "Loading is all-or-nothing under read faults and interrupts",
 "If the storage fails a read, or the load is interrupted, at any point while a grid, time axis, depth system, variable, dataset or verdat file is being loaded, the load raises; it never returns an object with parts silently missing, defaulted or wrong, and a verdat file cut off inside its list of points is rejected. A load that does return gives exactly what an undisturbed load gives, and after a failed load the next load of the same file works normally.",
 ["fault_sequences", "crash_points"],
 "for all files produced by supported conventions, every read (or executed line of library code) at which an error or interrupt is delivered, and every truncation point of a verdat file's point list",
 "Tests load intact files from a healthy disk; the loaders' except clauses are only ever exercised by missing attributes.",
 [G, RU, S, T, D, V, DS, VD, UT],
 [("except clauses in loaders", S + ": SGridAttributes, infer_location; " + RU + ": load_grid_from_nc_dataset; " + VD + ": load_verdat")],
 ["object returned by loaders, exception raised"])

prop("C09", "Answers do not depend on the wall clock or the process",
 "Loading the same file and asking the same questions gives identical answers whatever the wall clock reads at load or query time (including jumps backwards or forwards between calls), and in every process whatever its hash randomisation. Data without a time dimension, or with a single time, are constant in time: any query time, past or future, gives the same answer, and depth levels of such data are honoured. (The date that stands in for the missing time is not itself an answer.)",
 ["schedules", "histories", "configurations"],
 "for all settings and jumps of the wall clock before, between and after loading and querying, all hash seeds, and all static or time-dependent files",
 "Tests run once at the current time in one process; behaviour tied to 'now' cannot show.",
 [T, V, D, U],
 [("single-time axes ignore the query time", T + ": index_of, interp_alpha, constant_time; " + V + ": _time_interp, from_netCDF"), ("deterministic derived topology", U + ": build_edges")],
 ["answers under different clocks and hash seeds"])

prop("C10", "Time-axis shifts compose, reverse and fail cleanly",
 "Whatever sequence of time-zone offset changes, displacement and origin shifts is applied to a time axis, its times equal the original times plus the net shift, going back to an earlier offset restores the earlier times exactly, and a change that fails leaves times and offset as they were. Time lookups (bounds, index, interpolation weight) always agree with the current times, also after the times themselves are replaced, and other time axes are not affected.",
 ["histories", "fault_sequences", "inputs"],
 "for all sequences of accepted and failing offset/displacement changes interleaved with lookups, on axes built from lists, arrays, other axes or files",
 "Tests apply one or two shifts; drift, partial application on failure and aliasing between axes need longer histories and failing shifts.",
 [T],
 [("tz_offset and displacement setters, origin", T + ": Time.tz_offset, Time.displacement, Time.__init__")],
 ["Time.data, tz_offset, index_of, interp_alpha"])

prop("C11", "Memory stays bounded however many queries are made",
 "Querying the same objects over and over with ever new points and times does not make their memory use grow without bound: after a warm-up, the memory held by variables, vector variables, grids and depth systems stays level however long the history.",
 ["histories"],
 "for all long histories of distinct queries (points, times, options) on a fixed set of objects",
 "Tests make a handful of queries; a cache that never evicts looks identical to one that does.",
 [V, U, S, "gridded/pyugrid/uvar.py"],
 [("eviction", V + ": _memoize_result; " + U + ": _add_memo; " + S + ": _add_memo")],
 ["memory held after N and after 4N distinct queries"])

NA = "gridded/"
prop("C20", "Interpolation reproduces node values and fields it can represent",
 "Interpolating at a node returns the node's value, linear (triangles) and bilinear (quads) fields are reproduced inside their cells, and weights sum to one.",
 ["inputs"], "for all grids, points and fields", "Tests sample a few cells.", [U, S, G], [("weights", U + ": interpolation_alphas; " + S + ": x_to_l, compute_interpolant")])
prop("C21", "Every located point lies in the cell that was reported",
 "A point is reported in a face if and only if it lies in that face, and as outside only if it lies in none.",
 ["inputs"], "for all grids and points", "Tests sample a few points.", [U, S, G], [("cell tree and brute force search", U + ": locate_faces; " + S + ": locate_faces")])
prop("C22", "Time and depth interpolation are monotone blends of the two bracketing levels",
 "The weight given to the two bracketing times or levels lies between 0 and 1 and reproduces the query; boundary conditions apply exactly outside the range.",
 ["inputs"], "for all axes and queries", "Tests sample a few values.", [T, D, V], [("weights", T + ": interp_alpha; " + D + ": interpolation_alphas")])
prop("C23", "Derived topology is consistent with the faces",
 "Edges, neighbours, boundaries and coordinates built from the faces contain exactly the edges, adjacencies, unshared edges and averages of those faces.",
 ["inputs"], "for all meshes", "Tests use two fixed meshes.", [U], [("build_*", U + ": build_edges, build_face_face_connectivity, build_boundaries")])
prop("C24", "Grid type, data location and masks are recognised from file conventions",
 "A file following a supported convention is loaded as the right kind of grid with the right axes, padding, data locations and land/water mask.",
 ["inputs", "configurations"], "for all files following the supported conventions", "Tests use fixed sample files.", [G, S, UT], [("detection", G + ": Grid._get_grid_type; " + UT + ": convert_mask_to_numpy_mask")])
prop("C25", "Each point's answer is independent of the other points in the query",
 "Querying points together or one at a time gives the same value for each point.",
 ["inputs"], "for all sets of points", "Tests use fixed batches.", [V, D, S, U], [("vectorised evaluation", V + ": _depth_interp; " + D + ": interpolation_alphas")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
