#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step from one place)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TE, GE, ED, UT, DE, CN, PH = ("trackeddy/trackeddy.py", "trackeddy/geometry.py", "trackeddy/eddy.py", "trackeddy/utils.py",
                              "trackeddy/decorators.py", "trackeddy/src/cntr.c", "trackeddy/physics.py")
GN = "trackeddy/generator/field_generator.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why,
                   anchors=dict(files=files, **({"state": state} if state else {}),
                                mechanism=[{"name": n, "where": w} for n, w in mech],
                                observe_at=observe, hook_needed=None)),
              technique, note))


EXH = "exhaustive bounded exploration of the real code against a reference model"

prop("C01", "Extracted contours are exactly the level crossings of the field's mesh",
     "The contours extracted at a level cross every mesh edge whose ends lie on different sides of the level exactly once, at the linearly interpolated position, and nothing else. "
     "Every contour follows neighbouring mesh cells, closed ones return to their first vertex, and open ones end on the boundary of the mesh (or of the valid data). "
     "In a saddle cell the contour joins the corners that are on the side of the mean of the four corners. "
     "This holds for any field, level and regular, uneven or curvilinear mesh.",
     ["inputs"], "every above/below pattern of small meshes, every field over a small value alphabet, all three kinds of coordinates",
     "The tests extract the contours of one analytic field; saddles, nodes on the level, boundary runs and their combinations are inputs they never build.",
     [CN, GE], [("cell marching and saddle resolution", "cntr.c"), ("contour extraction", "geometry.py extract_contours")],
     ["contours returned for a field and a level"], EXH,
     "every sign pattern of meshes up to 4x4 (thorough 4x5) on 3 kinds of coordinates; contours compared with a marching reference, edge by edge")
prop("C02", "The contour tracer is memory safe and keeps no state between calls",
     "Tracing any sequence of levels and filled ranges over any field, mask and chunk size never reads or writes outside its buffers, never depends on previous calls, and leaves the caller's arrays unchanged. "
     "Invalid arguments raise a Python exception instead of undefined behaviour. "
     "Inputs, tracer and results may be released in any order.",
     ["inputs", "histories", "fault_sequences"], "every small mesh pattern x masks x sequences of calls, all combinations of invalid arguments, all release orders",
     "The tests run without sanitizers, with one valid mesh and no mask, and never reuse or release a tracer in another order.",
     [CN], [("point counting before allocation", "cntr.c cntr_trace"), ("argument validation", "cntr.c Cntr_init"), ("reference counting", "cntr.c build_cntr_list_v2")],
     ["ASan/UBSan reports", "results of repeated calls"], EXH + " under ASan/UBSan",
     "gcc ASan+UBSan build of the extension; all patterns up to 3x3 (thorough 3x4) x masks x call sequences")
prop("C03", "The ellipse fitted to a contour is the ellipse of the contour",
     "For a contour that is an ellipse, the fitted axes, orientation and centre are those of the ellipse, for any position, size, aspect ratio, orientation, sampling and direction, with the first axis the major one. "
     "For any contour, the fit follows its translation, rotation and scaling; the eccentricity is that of the two axes.",
     ["inputs"], "lattice of centres, axes, orientations, samplings and similarity transforms",
     "The tests fit a handful of ellipses; orientation quadrants, swapped axes and far-away centres are not covered.",
     [GE], [("least squares conic", "geometry.py fit_ellipse"), ("eccentricity", "geometry.py eccentricity")],
     ["fitted parameters and ellipse of a contour"], EXH, "complete lattice of ellipses and of similarity transforms of six other contours")
prop("C04", "The area of a contour is its area on the sphere",
     "The area of a contour in longitude and latitude equals its area on the sphere of the Earth, anywhere between the polar regions, however densely it is sampled, in both directions and from any starting vertex. "
     "It is not affected by adding 360 degrees to the longitudes.",
     ["inputs"], "lattice of positions, sizes, shapes, directions, starting vertices and longitude conventions",
     "The tests check one circle; the date line, the equator at lon 180, directions and conventions need other inputs.",
     [GE], [("reprojection around the contour and planar area", "geometry.py area_latlon_polygon")],
     ["area of a contour"], EXH, "reference: exact spherical area by Green's theorem; tolerance from the number of vertices")
prop("C05", "The similarity of two contours follows their discrete Frechet distance",
     "The similarity of two contours is a fixed decreasing function of their discrete Frechet distance relative to their size, for contours of any length. "
     "It is 1 for identical contours, symmetric where the distance is, and finite for contours of thousands of vertices.",
     ["inputs"], "all pairs of short lattice curves and a table of lengths around the thinning limits",
     "The tests compare two pairs of curves; the recursion limit and thinning branches need long ones.",
     [GE], [("dynamic programming distance", "geometry.py frdist"), ("thinning and normalisation", "geometry.py compute_similarity")],
     ["similarity score"], EXH, "all pairs of curves up to 4 points on a lattice against a direct dynamic program")
prop("C06", "The fitted Gaussian is the Gaussian of the data",
     "The Gaussian surface evaluated for a set of parameters is the analytic rotated Gaussian of these parameters. "
     "Fitting data that is such a surface recovers its centre, widths and orientation and reproduces the data, for either sign, from any initial guess near it, with any coordinates and with missing points.",
     ["inputs"], "lattice of parameters, meshes and initial-guess errors",
     "The tests fit one Gaussian from one guess on one mesh.",
     [GE], [("surface", "geometry.py Fit_Surface"), ("minimisation and its bounds", "geometry.py Fit_Surface._fitting")],
     ["fitted surface and parameters"], EXH, "complete lattice of parameters; quick and thorough differ in density")
prop("C07", "Every contour of a level is an eddy, or discarded for the criterion it fails",
     "Detecting at a level reports every contour of the field exactly once: as an eddy if it fulfils all identification criteria, otherwise as discarded with the first criterion it fails, at its centre. "
     "Contours cut by the edge of the domain or the data are never eddies. "
     "Criteria are those the user configured.",
     ["inputs", "configurations"], "all pairs of eleven kinds of features on two meshes, all combinations of criteria on a lattice",
     "The tests count eddies of one field with the default criteria; the order of the criteria and thresholds are never probed.",
     [TE, GE, ED], [("sequence of criteria", "trackeddy.py _detect_one_level"), ("tables of eddies and discarded contours", "eddy.py")],
     ["tables of eddies and of discarded contours"], EXH, "an independent reference re-evaluates every criterion for every contour")
prop("C08", "The attributes reported for an eddy are those of its contour and of the field",
     "Area, radius, centre, ellipse, sign, and the value and position of the extremum reported for an eddy are those of its contour and of the field inside it. "
     "This holds wherever the eddy lies on the globe and in the domain, for its size, shape and sign, and on regular, uneven, descending, rotated and curvilinear grids. "
     "A clean Gaussian eddy is detected, once.",
     ["inputs"], "nine meshes x origins x positions up to the edges x shapes x signs x levels",
     "The tests place eddies in the middle of a regular grid; edges, descending and rotated coordinates and large eddies are other inputs.",
     [TE, UT, GE], [("grid points nearest to the contour", "trackeddy.py _data_in_contour"), ("window around the contour", "trackeddy.py _get_data_in_contour"), ("mask, sign and extremum", "utils.py _mask_data_in_contour")],
     ["table of eddies of a level"], EXH, "reference attributes computed from the contour and the field with independent point-in-polygon")
prop("C09", "A detection depends on its field and settings, not on what ran before",
     "A detection returns the same tables whatever detections ran before it in the process: other levels, snapshots, trackings, trackers, changed and restored settings, or detections that failed or were interrupted at any point. "
     "Tables already returned are not modified by later detections, and modifying them doesn't affect later detections.",
     ["histories", "fault_sequences"], "all operation sequences up to a depth, and an exception injected at every call and return",
     "The tests run one detection per tracker; interrupted and interleaved histories are combinatorially many.",
     [ED, DE, TE], [("eddy tables shared by all eddies of a thread", "eddy.py"), ("emptied on exit of the detection", "decorators.py check_return_eddies"), ("prepared field kept in the tracker", "decorators.py filter_data")],
     ["tables returned by every operation of a history"], "exhaustive exploration of operation histories and fault points on the real code",
     "each sequence runs in its own process; every operation compared with the same operation run first",
     state=[{"name": "eddy tables", "meaning": "eddies and discarded contours of the detection in progress", "where": "eddy.py Eddy"}])
prop("C10", "Detecting over several levels yields every eddy once, at its best level",
     "Detecting a snapshot over a sequence of levels yields the union of the eddies of the levels, except that an eddy nearest to and within the radius of an already known one is the same eddy: it replaces it if both its scores are lower, and is dropped otherwise. "
     "Every attribute of a surviving eddy is that of one single-level detection, and identifiers count the eddies from 0. "
     "Level zero is ignored; levels may be any sequence of numbers in any order.",
     ["inputs", "histories", "configurations"], "all scripted levels of up to three eddies over an alphabet of positions, scores and radii; real fields over all orders of levels",
     "The tests count the eddies of one field; coincident, replaced and equidistant eddies need particular combinations.",
     [TE, UT], [("nearest eddy", "utils.py _detect_nearest"), ("best level", "utils.py _update_better_eddy"), ("renumbering", "utils.py _merge_reindex_eddies")],
     ["table of eddies of a snapshot"], EXH, "reference merge over lists; scripted levels cover all replace/drop/append combinations")
prop("C11", "Tracking keeps every detection of every snapshot, once and unchanged",
     "The table of tracks contains, for every snapshot of the tracked window, exactly the eddies detected in that snapshot, each once, with all its attributes and its contour unchanged and labelled with its time. "
     "This holds for any sequence of snapshots, including empty and crowded ones, and for any window of times.",
     ["histories", "inputs"], "all sequences of snapshots over an alphabet of frames; all windows",
     "The tests track one or two snapshots of the same eddies; empty snapshots, appearing, merging and crowded ones are histories.",
     [TE, UT], [("loop over the snapshots", "trackeddy.py time_tracking"), ("assignment of identifiers", "utils.py track_online")],
     ["table of tracks"], EXH, "reference: multiset of detections per snapshot, attribute by attribute")
prop("C12", "A track is continued by the nearest eddy within its radius, and by one only",
     "An eddy of a snapshot continues the recently seen track nearest to it if that track is nearer than the radius of the eddy, measured along the sphere; a track is continued by at most one eddy per snapshot, its nearest. "
     "All other eddies start tracks with identifiers never used before. "
     "Identifiers assigned up to a time never change when tracking further.",
     ["histories", "inputs"], "all pairs and triples of snapshots of competing eddies at five places of the globe",
     "The tests follow eddies that don't compete; crossing, swapping and vanishing eddies are histories.",
     [UT], [("nearest eddy", "utils.py _detect_nearest"), ("identifiers", "utils.py track_online, reindex")],
     ["identifiers in the table of tracks"], EXH, "reference tracker over lists, compared identifier by identifier")
prop("C13", "A track survives being unseen for up to ntimes snapshots, and no longer",
     "An eddy that reappears within its radius after being unseen for at most the configured number of snapshots continues its track with its identifier. "
     "After a longer gap it starts a new track with a new identifier. "
     "This holds for every pattern of presence and is independent of other eddies.",
     ["histories", "configurations"], "every presence pattern over 7 (9) snapshots x memories",
     "The tests never let an eddy disappear for several snapshots.",
     [UT, TE], [("window of recent snapshots", "utils.py track_online")], ["identifiers over time"], EXH,
     "every presence pattern x memory x companion against the reference tracker")
prop("C14", "The result depends on the data, not on how the dataset represents them",
     "Detections and tracks of a dataset are the same whatever the order of its dimensions, the names of its coordinates among the supported ones, the representation of the coordinates (1D, 2D coordinates or 2D variables), the memory layout, byte order, chunking or precision of the values, additional variables and singleton dimensions, whether it is read from a file, or whether a snapshot is given by its position or its date. "
     "The user's dataset is not modified.",
     ["inputs", "configurations"], "all combinations of representations",
     "The tests use one representation.",
     [TE, DE], [("identification of the coordinates", "trackeddy.py identify_coords, check_coords"), ("order of the dimensions", "trackeddy.py __init__")],
     ["tables of the same field in every representation"], EXH + " (differential: all representations of the same data)",
     "full product of dimension orders, coordinate kinds, names and memory layouts")
prop("C15", "Detection commutes with the symmetries of the sphere and of the amplitude",
     "Changing the sign of field and level, scaling both, rotating in longitude, mirroring in latitude or longitude, or storing rows and columns in another order changes the detected eddies by exactly that transformation and nothing else. "
     "Cyclones and anticyclones are treated alike.",
     ["inputs"], "all compositions of the symmetry generators on six fields and four grids",
     "The tests look at one orientation of one hemisphere with mostly positive eddies.",
     [TE, GE, UT, PH], [("sign of an eddy", "utils.py _mask_data_in_contour"), ("Rossby radius", "physics.py approx_RD_lat"), ("areas", "geometry.py area_latlon_polygon")],
     ["tables of transformed fields"], EXH + " (all compositions of the symmetry generators)", "quick: up to two generators, thorough: all compositions")
prop("C16", "A spatial filter subtracts the mean it is named after, of the same snapshot",
     "The convolution filter subtracts the mean over a square of the kernel's size (an odd number of points, zero outside the grid, missing points left out), the meridional and zonal filters subtract the mean along longitude and latitude. "
     "Detection and tracking of filtered fields are those of the anomaly of each snapshot, and changing the filter or snapshot takes effect at the next detection.",
     ["inputs", "configurations", "histories"], "impulse responses at every point for every kernel, every missing pattern of small grids, sequences of settings",
     "The tests filter one field; linearity allows deciding the filter from all its impulse responses.",
     [TE, DE], [("filters", "trackeddy.py _space_filter"), ("anomaly and mask", "decorators.py filter_data")],
     ["anomaly of a snapshot", "detections of filtered fields"], EXH, "all impulse responses (a basis of the linear operator) and all small missing patterns")
prop("C17", "Missing data removes the eddies whose contour it cuts, and nothing else",
     "Missing points of the field don't affect the eddies whose surroundings are valid, and an eddy whose contour crosses missing data is not reported. "
     "With filling enabled, a field with missing points is treated as the field with zeros in their place, before filtering. "
     "The user's data keep their missing points.",
     ["inputs", "configurations"], "a missing point at every node, every rectangle of missing points",
     "The tests never have missing data.",
     [TE, DE, CN], [("missing treatment", "trackeddy.py treat_nan"), ("mask of the filtered data", "decorators.py filter_data"), ("cells without data", "cntr.c")],
     ["eddies of the field with and without missing points"], EXH + " (differential: with and without the missing points)",
     "one missing point at every node, all rectangles on a lattice")
prop("C18", "Offline tracking stores each snapshot in its own file, whatever befalls others",
     "Tracking offline writes for every snapshot with eddies of the window one file, named after the snapshot, with exactly its eddies, attributes, contours and time, readable as written, in every available format. "
     "A failure at any snapshot leaves the files of the earlier ones complete, and restarting from any of them gives the same files as an uninterrupted run.",
     ["histories", "crash_points", "configurations"], "all sequences of snapshots, failures at every detection and write, restarts from every snapshot",
     "The tests never track offline.",
     [TE, UT], [("storing a snapshot", "utils.py store_snapshot"), ("offline branch", "trackeddy.py time_tracking")],
     ["files of the output directory"], "exhaustive exploration of histories, failure points and restarts on the real code",
     "all sequences of 4 (6) snapshots x format x failure point x restart point")
prop("C19", "Detections running in several threads don't disturb each other",
     "Detections running concurrently in several threads, on different trackers or on one tracker at different levels, return the same tables as if they had run one after the other. "
     "This includes detections that find nothing, that discard everything or that fail.",
     ["schedules"], "all schedules of two threads with one preemption at any call, return (thorough: line) of the package, two preemptions at calls and returns",
     "The tests are single threaded.",
     [ED, DE, TE], [("tables of each thread", "eddy.py Eddy"), ("emptying the tables", "decorators.py check_return_eddies")],
     ["tables returned in each thread"], "stateless model checking of thread schedules with a preemption bound, under a controlled scheduler",
     "real threads under a cooperative scheduler on sys.settrace; preemption bound 1 (lines in thorough) and 2",
     state=[{"name": "eddy tables", "meaning": "eddies and discarded contours of the detection in progress in a thread", "where": "eddy.py Eddy"}])
prop("C20", "Generated fields are superpositions of the eddies they describe",
     "Every step of a generated field is the sum of one Gaussian per eddy with the amplitude, radii and orientation the eddy reports, at a point of the domain (at the reported position if eddies are fixed), for any number of eddies, grid and margin; it can be rebuilt from the eddies. "
     "Eddies generated without interaction are at least five radii apart wherever the domain has room for it, and the generation always ends. "
     "A step of the random walk moves by the step in one of the eight directions, and the same seed gives the same field.",
     ["inputs", "histories", "fault_sequences"], "every outcome of the random generator over small grids, for one and two eddies, three modes and margins",
     "The tests run with one random seed.",
     ["trackeddy/generator/field_generator.py", "trackeddy/generator/gaussian_field_functions.py"], [("placement", "field_generator.py"), ("random walk", "field_generator.py"), ("superposition", "field_generator.py")],
     ["generated fields and positions"], "exhaustive exploration of every outcome of the random choices on the real code",
     "the random module is scripted: every initial position of one and two eddies x every first retry")
prop("C21", "A detection ends with tables of eddies and discards, whatever the field",
     "Detecting any finite or missing field at any level, on any grid, over any levels and in time, ends with (possibly empty) tables of eddies and discarded contours and never fails. "
     "Every eddy reported has at least three distinct points, a finite positive area, and values that are consistent with its level.",
     ["inputs", "configurations"], "every field of two (three) values on the points inside a small grid, plateaus and missing points",
     "The tests use smooth fields; degenerate contours, plateaus and flat fields are other inputs.",
     [TE, GE, UT, CN], [("degenerate contours", "trackeddy.py _detect_one_level"), ("ellipse of few points", "geometry.py fit_ellipse"), ("fit", "geometry.py Fit_Surface")],
     ["outcome of detection, snapshot and tracking"], EXH, "every field over two values on 3x3 interior points (4x4, three values in thorough)")
prop("C22", "An eddy depends on the field around it only",
     "An eddy and all its attributes stay the same if the field is changed away from it, if other eddies are added or removed, or if the domain is cropped away from it. "
     "Changes away from it don't create or remove eddies elsewhere than where they are.",
     ["inputs"], "every single value changed, every crop on a lattice of limits, every subset of the eddies",
     "The tests never compare two related fields.",
     [TE, UT], [("window around the contour", "trackeddy.py _get_data_in_contour")], ["eddies of related fields"],
     EXH + " (differential: all local changes of a field)", "every node changed alone, all crops and subsets")
prop("C23", "Eddies are collected and exported as they are",
     "Exporting an eddy yields exactly the requested properties with the eddy's values, one row per vertex of the contour if it is included, in the order requested; an unknown property raises ValueError. "
     "Storing and discarding eddies in any order collects each once, in order, numbered from 0, and resetting starts anew.",
     ["inputs", "histories"], "all subsets of the properties, all short operation sequences",
     "The tests export the default selection once.",
     [ED], [("export", "eddy.py to_table"), ("collection", "eddy.py store, discarded, exit")], ["exported tables and collected tables"],
     "exhaustive exploration of selections and operation sequences on the real code against a reference model", "2^13 selections; all sequences of 5 (7) operations",
     state=[{"name": "eddy tables", "meaning": "eddies and discarded contours of the detection in progress", "where": "eddy.py Eddy"}])
prop("C24", "The plots show the identified eddies and the discarded contours, as labelled",
     "The plots of a detection show the contour of every eddy and the centre of every discarded contour exactly once, in the color that the legend gives to its level or to its reason, over the detected field. "
     "They also work when there are no eddies, nothing discarded, any reasons, or many levels.",
     ["inputs"], "all sets of reasons, all small snapshots over up to six levels",
     "The tests only check that a plot doesn't fail.",
     [TE], [("plots", "trackeddy.py plot_eddy_detection_in_level, plot_eddy_detection_multilevel")], ["artists of the figure"], EXH,
     "the artists of the figure are compared with the tables")

prop("C25", "Configurations that aren't supported are rejected, supported ones are obeyed",
     "A detection or tracking configured with a filter, type or mode of filter, value of nan_treatment or output format that doesn't exist raises ValueError, and never runs as if it had not been asked for. "
     "A missing criterion raises KeyError, and a dataset whose coordinates can't be identified, or aren't all 1D or all 2D, raises ValueError. "
     "What is supported has the documented effect. After the configuration is repaired, the same tracker behaves as a new one.",
     ["inputs", "histories"], "all combinations of filters, types, modes, kernels, formats, values of nan_treatment, names and presences of coordinates and subsets of the criteria, at every entry point",
     "The tests only use valid configurations.",
     [TE, DE, UT], [("dispatch of the filters", "decorators.py filter_data, trackeddy.py _filter_data_, _space_filter"), ("coordinates", "trackeddy.py identify_coords, check_coords"),
                    ("formats", "utils.py store_snapshot")], ["exceptions", "field after filtering", "tables", "files"], EXH,
     "each configuration is run on a new tracker and then repaired; the filtered field is compared with a direct computation")

prop("C26", "Moving eddies are tracked end to end, each by one track along its path",
     "The synthetic fields of moving Gaussians have height one at the requested centres and the requested full width at half maximum, at each step. "
     "Tracking such fields (one or several eddies of either sign on any path, well away from each other and from the boundary, that move less than their radius per step) "
     "yields exactly one track per eddy, present at every time and nowhere else, whose position, extremum, sign and area at each time are those of the eddy.",
     ["inputs", "histories"], "all sets of up to three of five paths, all signs, levels in any order, grids at several latitudes, all directions and speeds",
     "The tests track two fields and compare the lengths of two tracks.",
     [TE, UT, GE, "trackeddy/generator/gaussian_field_functions.py"],
     [("synthetic fields", "gaussian_field_functions.py makeGaussian, moveGaussian"), ("tracking", "trackeddy.py time_tracking")],
     ["generated fields", "table of tracks"], EXH,
     "every scenario is tracked by the real code from the generated fields; the tracks are compared with the analytic eddies")

prop("C27", "Filled regions cover exactly the part of the mesh between two levels",
     "Tracing two levels of a field gives closed polygons that bound exactly the part of the mesh above the lower and not above the upper level: "
     "their boundaries are the interpolated cuts of both levels and the pieces of the boundary of the mesh (or around masked points) between the levels, each once, "
     "outer boundaries and holes turn opposite ways, and every hole lies within its region. "
     "Splitting the work in chunks cuts the regions, into parts of at most the given number of points squared, but never changes what is covered.",
     ["inputs"], "every field of 3 classes on meshes of up to 3x3 (3x4), every interior of a 5x5 mesh, masks, chunks, ties, meshes of up to 60x70",
     "No test traces two levels.",
     ["trackeddy/src/cntr.c"],
     [("two level trace", "cntr.c data_init, zone_crosser, edge_walker, slit_cutter, curve_tracer"), ("polygons", "cntr.c reorder, build_cntr_list_v2")],
     ["polygons and their codes"], EXH,
     "every field is traced by the real extension; the sum of the directed boundaries, where opposite pieces cancel, equals that of a cell by cell reference")

NA = [
    ("N01", "Temporal filters extract the anomaly in time",
     "Not implemented: the temporal filter is a stub without behaviour (it returns nothing), so there are no executions to explore."),
    ("N02", "The gaussian mode of the spatial filter",
     "Not implemented: this mode always raises before computing anything, so there is no behaviour to explore."),
    ("N03", "Offline storage in hd5",
     "The library it needs (PyTables) is not installed and can't be, so no execution of it can be explored here; csv and json are covered by C18."),
    ("N04", "The criteria detect the eddies an oceanographer would",
     "Detection skill against labelled or observed data is a statistical statement about a population of fields, without an oracle on each execution to explore."),
]

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B tools/setup.py",
    "checks": [{"property": p["id"], "quick_cmd": "./run.py %s" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./run.py %s" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": t,
                "level": "model_checking", "level_note": n} for p, t, n in P],
    "not_applicable": [{"property": i, "reason": "%s: %s" % (t, r)} for i, t, r in NA],
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
