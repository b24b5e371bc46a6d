#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "One minimum-curvature law everywhere a position is computed",
  "The displacement between two consecutive stations is half the along-hole distance, times the ratio factor tan(d/2)/(d/2) of the dogleg d between their directions (1 when d is 0), times the sum of their unit direction vectors, and positions are the running sum of those displacements from the start point. Every routine that moves a position along a curved section (trajectory build, single step, interpolation, arcs, connector sections) obeys this same law, with directions (sin I cos A, sin I sin A, cos I).",
  ["inputs"], "all stations, inclinations, azimuths, depths, doglegs including zero, and start points",
  "tests sample a few well paths to a tolerance; a wrong branch (zero dogleg, interpolation offset, one coordinate) only shows on other inputs",
  ["welleng/utils.py", "welleng/survey.py", "welleng/connector.py"],
  [("ratio factor, step, trajectory build", "utils.get_rf, min_curve_step, MinCurve"), ("interpolated positions", "survey._interpolate_pos_nev, _interpolate_survey"), ("connector arc end", "connector.get_pos, utils.Arc")])

p("C02", "Degrees and radians are never mixed",
  "Every trigonometric evaluation, direction-vector construction and dogleg is applied to angles in radians, whatever angle flag the caller used; every quantity published as degrees is the degree value of the corresponding radian quantity, and every degrees flag is honoured exactly once.",
  ["inputs", "configurations"], "all angle values and every setting of the degree/radian flags on every public entry point",
  "tests exercise mostly the default flag; a double or missing conversion on the other flag or on one output attribute is not executed",
  ["welleng/utils.py", "welleng/survey.py", "welleng/connector.py", "welleng/node.py", "welleng/clearance.py"],
  [("angle conversion", "survey.Survey.__init__, SurveyHeader.__init__, utils.get_vec, utils.get_angles, Connector.__init__, Node.check_angle_inputs")])

p("C03", "True, magnetic and grid azimuths stay tied by convergence and declination",
  "Whichever reference a survey's azimuths are given in, its three published azimuths satisfy true = grid + convergence and magnetic = true - declination (mod 360), the given one is stored unchanged under its own reference, and the trajectory is computed from the grid azimuth.",
  ["inputs", "configurations"], "all azimuth values, convergence, declination and the three reference settings",
  "tests hold convergence and declination near zero or use one reference, so a sign error in one branch is invisible",
  ["welleng/survey.py"], [("azimuth reference conversion", "survey.Survey._process_azi_ref and the constructor that calls it")])

p("C04", "A rebuilt survey is told the reference its azimuths are really in",
  "Whenever the library builds a survey from another survey's stations (interpolation, slicing, closest points, sidetrack section, control points, duplicate removal, torque-and-drag stations), the azimuths it passes are in the reference that the header it passes declares, so the rebuilt survey points in the same directions as the source.",
  ["inputs", "configurations"], "every source survey, including ones whose header reference is true or magnetic with non-zero convergence/declination",
  "test headers use the grid reference or zero convergence, where re-rotating an azimuth changes nothing",
  ["welleng/survey.py", "welleng/clearance.py", "welleng/torque_drag.py", "welleng/exchange/wbp.py"],
  [("internal Survey construction sites", "every Survey(...) call in the package")])

p("C05", "Derived surveys keep their source's units, radians flag and origin",
  "Every survey the library derives from another survey states the angle unit its angles are in and the same length unit as the source, and starts from the source station's own north/east/vertical (and x/y/z) position rather than from zero.",
  ["inputs", "configurations"], "every source survey, with any length unit and any start position",
  "tests build metre surveys at the origin, where a dropped unit or start position has no effect",
  ["welleng/survey.py", "welleng/clearance.py", "welleng/exchange/wbp.py", "welleng/torque_drag.py"],
  [("internal Survey construction sites", "every Survey(...) call in the package that reads another survey")])

p("C06", "Coordinate frames: NEV, XYZ and HLA conversions are consistent and inverse",
  "North-east-vertical triples have north first, x-y-z triples have east as x and north as y, and converting there and back is the identity; the high-side/lateral/along-hole rotation is orthonormal with its along-hole axis the direction vector, and the reverse transformation of vectors and of covariances is its transpose. Every routine labels and orders the components it returns accordingly.",
  ["inputs"], "all vectors, directions and covariance matrices",
  "tests check a few conversions; a swapped component or untransposed rotation in one direction cancels for symmetric data",
  ["welleng/utils.py", "welleng/survey.py", "welleng/node.py", "welleng/connector.py"],
  [("frame conversions", "utils.get_nev, get_xyz, get_vec, get_angles, _get_transform, NEV_to_HLA, HLA_to_NEV")])

p("C07", "Library calls never modify the data their caller passed in",
  "No public function, method or constructor changes an array, list, dictionary, header or survey that the caller passed in, or a shared default argument value; it works on its own copies. The only objects an operation changes are the one it is a method of and objects it created.",
  ["histories", "inputs"], "every public operation and every sequence of operations sharing the same input objects",
  "tests use each input once, so corruption of a shared header, covariance or default list never becomes visible",
  ["welleng/survey.py", "welleng/utils.py", "welleng/clearance.py", "welleng/error.py", "welleng/torque_drag.py", "welleng/exchange/wbp.py", "welleng/exchange/edm.py", "welleng/connector.py"],
  [("in-place stores", "every subscript store, attribute store, augmented assignment and mutating method call in the package")])

p("C08", "Every advertised error model is complete and understood",
  "Every error model name the library advertises resolves to a model definition that exists, and every term of every shipped definition names an implemented weight function, a known propagation mode and known units, so that no term is dropped silently and none fails to compute: a term whose formula needs an input the library does not provide is left out only with a warning that names it. Tables that describe the same mapping in different modules agree.",
  ["configurations", "programs"], "all shipped model definitions, terms and registry entries",
  "tests compute a handful of models; a missing entry for one model or mode only fails for that model",
  ["welleng/errors/tool_errors.py", "welleng/error.py", "welleng/errors/conformance.py", "welleng/errors/tool_index.yaml", "welleng/errors/tool_codes", "welleng/errors/iscwsa_json"],
  [("weight-function registry", "tool_errors.ToolError func_dict"), ("propagation and unit tables", "tool_errors, conformance, iscwsa_ingest, tools/owsg_to_json")])

p("C09", "Weight functions equal the published weighting formulas",
  "For every error term the library implements in code, the depth, inclination and azimuth sensitivities equal the published formula shipped for that term's weight function, for all inclinations, azimuths, dips, field strengths and latitudes (up to one common sign of a term's whole error vector). Where the shipped definition gives near-vertical singularity expressions, the code substitutes expressions equal to those.",
  ["inputs"], "all survey attitudes and field parameters",
  "tests compare a few models at a few stations, where terms with small weight or vanishing factors hide an altered formula",
  ["welleng/errors/tool_errors.py", "welleng/errors/iscwsa_json"],
  [("weight functions", "functions registered in tool_errors func_dict"), ("published formulas", "iscwsa_json *_formula fields")])

p("C10", "Errors accumulate along the well according to their propagation mode",
  "Random error terms add their covariances station by station; systematic, global and within-pad terms add their error vectors along the well first and only then form the covariance; the total covariance is the sum over all terms of all modes, each counted exactly once. A survey station's contribution is half its error vector over the interval above plus half over the interval below.",
  ["inputs", "configurations"], "all error models, term sets and survey lengths",
  "tests compare final numbers of a few models; a mode swapped for a small term or a partition not summed stays within tolerance",
  ["welleng/error.py", "welleng/errors/tool_errors.py", "welleng/survey.py"],
  [("propagation", "error.ErrorModel._generate_error, _sigma_NEV_*, _cov*"), ("partition sums", "tool_errors.ToolError.__init__")])

p("C11", "Covariance matrices are symmetric and non-negative by construction",
  "Every covariance matrix the library publishes is built only from outer products of a vector with itself, from rotations R C R' of covariances, from sums or non-negative multiples of covariances, and from interpolation between covariances, so it is symmetric and has no negative variance by construction.",
  ["inputs"], "all error vectors, directions and interpolation fractions",
  "tests compare a few matrices; an asymmetric or negative construction only shows for other attitudes",
  ["welleng/utils.py", "welleng/error.py", "welleng/survey.py", "welleng/clearance.py", "welleng/errors/tool_errors.py"],
  [("covariance constructors", "utils.make_cov, cov_from_vec, make_long_cov, NEV_to_HLA, HLA_to_NEV; error._generate_error; survey interpolation")])

p("C12", "Error-model formulas can only do arithmetic",
  "A formula string from an error-model definition is evaluated only after every construct in it has been checked against a fixed list of arithmetic operators and named mathematical functions; attribute access, subscripting, keyword arguments, comprehensions, lambdas and calls of anything but the named functions are rejected before anything is evaluated, and evaluation sees no builtins and no names beyond the declared bindings and functions.",
  ["inputs", "programs"], "every formula string, including hostile ones, and every path to evaluation",
  "tests try a few bad formulas; a new path to evaluation or a widened list is not covered by them",
  ["welleng/errors/interpreter.py"], [("whitelist and evaluation", "interpreter.evaluate and its validator")])

p("C13", "The separation factor is the ISCWSA ratio of its stated ingredients",
  "At every station the separation factor is (centre-to-centre distance - reference radius - offset radius - surface margin) divided by k times the root of the sum of squares of the two pedal-curve radii and the project-ahead sigma; each pedal-curve radius is the root of u'Cu for that well's own covariance along the line joining the wells, and the allowable distance is the uncertainty boundary plus radii plus margin.",
  ["inputs"], "all well pairs, covariances, radii and settings",
  "the tests compare separation factors of one standard data set to a tolerance and do not check the other published quantities",
  ["welleng/clearance.py"], [("separation rule", "clearance.IscwsaClearance.__init__, _get_PCRs, _get_calc_hole, _get_delta_nev_vectors")])

p("C14", "Every accepted option takes effect",
  "Every parameter that a public function, method or constructor accepts influences its result or its effects, and an operation that delegates to another passes on the options both of them accept instead of silently using the callee's default. Options kept only for compatibility are the sole exceptions.",
  ["configurations", "inputs"], "every public operation and every non-default option value",
  "tests leave most options at their defaults, where a dropped option is invisible",
  ["welleng/survey.py", "welleng/clearance.py", "welleng/mesh.py", "welleng/connector.py", "welleng/utils.py", "welleng/torque_drag.py", "welleng/exchange/csv.py", "welleng/error.py"],
  [("parameter flow", "every public function, method and constructor in the package")])

p("C15", "The connector handles every combination of target inputs",
  "Each of the 32 combinations of given and missing target inputs is either rejected with an explanation or mapped to a solution method that exists, has an interpolator, and sets every quantity that interpolation and the end nodes read; contradictory combinations (nothing at all, a vector together with angles, a depth together with a position) are rejected. The method is the one the inputs call for: a depth alone is a hold; a direction without a position is a minimum curve; a position alone or with one angle is a curve and hold; a position with a direction is curve-hold-curve; and a target already met by going straight ahead is a straight hold.",
  ["inputs", "configurations"], "all 32 combinations of target inputs and all solution methods",
  "tests drive about a dozen combinations; an unmapped or half-initialised combination is not reached",
  ["welleng/connector.py"], [("method table", "connector.Connector._get_initial_methods, _get_method, _use_method"), ("interpolators", "connector.interpolate_well")])

p("C16", "A rejected connector retry leaves no trace in the solution",
  "When the connector tries an alternative solution and rejects it, every quantity from which the path is later interpolated is restored to its value before the attempt, so the published path is never a mixture of two attempts.",
  ["histories", "inputs"], "all geometries that trigger a retry and every accept/reject sequence",
  "retries are triggered only by rare geometries; no test inspects the mixture",
  ["welleng/connector.py"], [("snapshot and restore", "connector.Connector._delta_pos3_rescue, _endpoint_rescue, _enforce_planarity")])

p("C17", "Batched and fast variants compute what the plain versions compute",
  "The vectorised curve-hold solver, the fast toolface routine and the stacked error-propagation kernels compute exactly the same expressions as the scalar or reference versions they replace, including the wrapping of negative doglegs and the handling of zero-length curves.",
  ["inputs"], "all geometries and attitudes, any batch shape",
  "tests compare a few hundred random samples to a tolerance; degenerate branches are rarely drawn",
  ["welleng/connector.py", "welleng/utils.py", "welleng/error.py", "welleng/survey.py"],
  [("batch solver", "connector.solve_curve_hold_batch vs Connector._min_dist_to_target"), ("fast toolface", "utils.get_toolface_fast vs get_toolface"), ("drdp kernels", "error.ErrorModel._drdp vs drk_*")])

p("C18", "A well plan written to a .wbp file reads back field for field",
  "Every record the .wbp exporter writes (header, turn point, survey point, location) is parsed by the importer with each field landing in the attribute it was written from: same record tags, same order or columns, same number of fields, and code tables inverted by the same lookup (values that fit their columns; names without colons or repeated blanks).",
  ["inputs"], "all well plans and steps",
  "no test writes and reads a plan",
  ["welleng/exchange/wbp.py", "welleng/exchange/wbp.yaml"],
  [("writer", "wbp.add_header, add_turn_point, add_survey_point, add_location"), ("reader", "wbp.WellPlan._add_wellplan_header, _add_turn_point, _add_extended_survey_point, _add_survey_data, _add_location_data")])

p("C19", "EDM queries return exactly the matching records",
  "An EDM attribute query returns each record once, and only if all (AND) or any (OR) of the requested attributes match; a wellbore's ancestors and survey stations depend only on that wellbore, not on earlier queries, and a wellbore without ancestors gets no additional survey records.",
  ["inputs", "histories"], "all EDM files, attribute filters and sequences of queries",
  "no test reads an EDM file",
  ["welleng/exchange/edm.py"], [("queries", "edm.EDM.get_attributes, get_parents, get_wellbore_data")])

p("C20", "The uncertainty mesh radius includes every contribution",
  "Every vertex ring of an uncertainty mesh has semi-axes equal to sigma times the standard deviation plus the hole radius, the surface margin and half the project-ahead sigma (hole radius alone for the circle method), rotated to the well direction and centred on the station; mesh-based clearance passes its own sigma, margin and project-ahead settings and applies the surface margin to the offset well only.",
  ["inputs", "configurations"], "all surveys, covariances and settings",
  "no test builds an uncertainty mesh with non-default settings",
  ["welleng/mesh.py", "welleng/clearance.py"], [("ring construction", "mesh.WellMesh._get_vertices"), ("settings", "clearance.MeshClearance._get_mesh, mesh.sliced_mesh")])

p("C21", "Torque and drag follow the soft-string equations for each load case",
  "Per element the normal force is sqrt((F dA sin I)^2 + (F dI + W sin I)^2), where dA is the azimuth change taken the short way round; tension changes by W cos I plus friction for pickup, minus friction for slack-off and without friction for rotating, torque by friction times rotating normal force times radius, with buoyed weight from (string - fluid)/string density. Load-case results are published under the case whose friction sign produced them, and weight on bit acts in compression. The model's stations are the survey's and one at every section bottom of bore and string, none of them twice, each with its own angles; a hook-load model gives the surface tension of the string run to each depth from one step below its top to its bottom, in the bore with each friction factor of the range, both ends included.",
  ["inputs", "configurations"], "all strings, wellbores, surveys and load cases",
  "no stable test builds a torque-and-drag model",
  ["welleng/torque_drag.py"], [("soft-string equations", "torque_drag.force_normal, force_tension_delta, torsion_delta, buoyancy_factor, TorqueDrag.get_forces_and_torsion")])

p("C22", "A string's sections tile it without gaps, overlaps or overshoot",
  "Adding a section to a string, from the top or from the bottom, always places it against the previous one, stays inside the string's limits, records its top and bottom, and marks the string complete exactly when the far end is reached; every permitted way of giving the section's extent works. A string run to a shallower depth keeps the lengths and data of its sections from the bit upwards and is cut at its top; a depth outside the string is refused.",
  ["inputs", "histories"], "all sequences of added sections and all ways of giving an extent",
  "no stable test builds a string",
  ["welleng/architecture.py"], [("section stacking", "architecture.String.add_section_top_down, add_section_bottom_up")])

p("C23", "Optional packages are used only where their absence was ruled out",
  "Importing the library never requires an optional package, and every use of one is reached only after a check that it is installed which otherwise raises an explanatory error or takes a fallback.",
  ["configurations"], "all combinations of installed and missing optional packages and all entry points",
  "the tests run in one environment, with one set of packages installed",
  ["welleng/clearance.py", "welleng/mesh.py", "welleng/visual.py", "welleng/survey.py", "welleng/io.py", "welleng/target.py", "welleng/torque_drag.py", "welleng/exchange/wbp.py", "welleng/exchange/edm.py", "welleng/fluid.py"],
  [("import guards", "module-level try/except ImportError flags and their uses")])

p("C24", "No operation fails on a name, attribute or argument that does not exist",
  "On every path of every operation, each name used is bound, each attribute or method read from one of the library's own objects exists, is set on every construction path that reaches it, and each call to the library's own functions supplies the arguments the callee requires and only ones it accepts.",
  ["inputs", "configurations"], "every path through every public operation",
  "paths the tests do not execute (rare options, error branches, whole modules) fail only when first reached",
  ["welleng/survey.py", "welleng/connector.py", "welleng/torque_drag.py", "welleng/architecture.py", "welleng/exchange/wbp.py", "welleng/exchange/edm.py", "welleng/mesh.py", "welleng/clearance.py", "welleng/node.py", "welleng/error.py", "welleng/errors/tool_errors.py"],
  [("resolution", "every name, attribute and call in the package")])

p("C25", "Results depend only on the inputs",
  "No computed result depends on random numbers, the clock, hash or set ordering, the environment, or on module state changed by an earlier call; the same inputs always give the same result (a date left out is documented to mean today, and the time stamp of an exported file is a comment).",
  ["histories", "schedules"], "every computation and every history of earlier calls",
  "a test cannot tell a lucky draw from a deterministic result",
  ["welleng/connector.py", "welleng/survey.py", "welleng/utils.py", "welleng/error.py", "welleng/errors/tool_errors.py"],
  [("sources of nondeterminism", "every call and module-level store in the package")])

p("C26", "Dogleg severity, build and turn rates use the survey's own length unit",
  "Dogleg severity, build rate and turn rate are per 30 m for metric surveys and per 100 ft for imperial ones wherever a survey, a trajectory or a design radius is computed, and radius-to-severity and severity-to-radius conversions are inverse of each other.",
  ["inputs", "configurations"], "all severities, radii, station spacings and both length units",
  "tests use metres almost throughout",
  ["welleng/utils.py", "welleng/survey.py", "welleng/connector.py"],
  [("coefficients", "utils.MinCurve, dls_from_radius, radius_from_dls; survey rates; Connector design radius")])

p("C27", "Fluid composition and density model are self-consistent",
  "The relative volumes of water, oil and weighting material of a fluid always sum to one and reproduce the given fluid density at reference conditions, and the density-profile equations use the oil coefficients for the oil phase and the water coefficients for the water phase.",
  ["inputs"], "all densities, water fractions, temperatures and pressures",
  "tests check one published example with overridden volumes",
  ["welleng/fluid.py"], [("volumes and density equations", "fluid.Fluid._get_volumes_reference, _get_coefficients, _func, _get_density")])

p("C28", "Published survey scalars are the defined functions of the trajectory",
  "Dogleg between stations is the angle between their direction vectors; toolface is the high-side angle of the turn between stations and the normal is the unit normal of the arc's plane. Vertical section is the running sum of each interval's horizontal displacement times the cosine of the section azimuth minus the interval's mean azimuth (taken the short way round; a vertical end takes the section azimuth). A survey's build and turn rates are the magnitudes of the curvature's build and turn components; the control points' turn rate is the signed shortest-way azimuth change and their location is [east, north, -tvd].",
  ["inputs"], "all trajectories and section azimuths",
  "tests sample a few trajectories; wrap-around at north and sign conventions are rarely crossed",
  ["welleng/survey.py", "welleng/utils.py"],
  [("scalars", "utils.get_dogleg, survey.Survey.get_vertical_section, _get_toolface_and_rates")])

p("C29", "Derived surveys and nodes carry each station's own data",
  "Whatever is derived from a survey's stations carries those stations' own data: a node takes position, direction, depth and covariance of its one station; a slice keeps the same rows of depth, angles, coordinates, radius and covariances, and the error model; splicing joins every per-station array from each following survey's second station on; a projection starts from the last station's position, direction, covariance, radius and error model; a densified survey takes the radius and base covariance of the last original station at or above. Interpolation flags are true exactly for stations that were added.",
  ["inputs", "histories"], "all surveys, station indices, slices, splices and interpolations",
  "tests compare positions of derived surveys, hardly ever their covariances, radii or flags, and mostly on surveys whose stations all carry the same value",
  ["welleng/survey.py"],
  [("nodes and slices", "survey.get_node, slice_survey"), ("splicing", "survey.SurveyData, splice_surveys"), ("projection", "survey.project_to_target"), ("flags", "survey.interpolate_survey, from_connections, _interpolate_survey, interpolate_tvd")])

p("C30", "Difficulty and tortuosity indices and arc centres follow their definitions",
  "The directional difficulty index is log10 of measured depth times horizontal displacement times cumulative dogleg over vertical depth, with lengths in feet whatever the survey's own unit. A tortuosity index sums, per section, the ratio of course length to chord from the section's start, less one, on top of the preceding sections' total, and scales it by the section count and measured depth as published (the modified index divides each term by its course length). A section starts at the station between two intervals of different curvature plane. Both ends of an interval give one centre of its arc: the interval's own radius away, in the arc's plane, at right angles to the path.",
  ["inputs", "configurations"], "all trajectories, length units, tolerances and scaling coefficients",
  "no test evaluates these indices on surveys in feet or with several sections, or compares the two centres of an interval",
  ["welleng/survey.py"],
  [("difficulty", "survey.directional_difficulty_index"), ("tortuosity", "survey.tortuosity_index, modified_tortuosity_index, _get_ti_data"), ("arc centres", "survey.get_circle_radius")])

p("C31", "Tables, exported files and figures show the quantity their labels name",
  "Every column of an exported survey, of a survey table, and every axis, trace and hover value of the library's figures holds the quantity its heading, title or placeholder names: the value under 'INC (deg)' is the inclination in degrees, the one under 'N/S (m)' the northing, the hover text of a point describes that very point, a load figure plots the load case its legend names in the unit its axis names.",
  ["inputs", "configurations"], "all surveys, wells, load cases and units; every exported column and plotted trace",
  "exports and figures are not asserted by any test, and a plot with two columns swapped still renders",
  ["welleng/survey.py", "welleng/visual.py", "welleng/torque_drag.py"],
  [("tables", "survey.survey_to_df"), ("export", "survey.export_csv, get_data, TurnPoint"), ("figures", "visual._panel, _scatter3d, _mesh3d"), ("loads", "torque_drag.figure_string_tension_and_torque, figure_hookload")])

p("C32", "Conversion helpers are exact and undo each other",
  "An angle converted to degrees, minutes and seconds and back is the same angle, whatever its sign or size and with or without a hemisphere letter, and the text printed for it parses back to the same values. Covariance elements are packed into and unpacked from their own places, a linear conversion multiplies every element by its factor, and the annular volume is pi/4 (od^2 - id^2) times the length.",
  ["inputs"], "all angles, field types, covariance matrices and dimensions",
  "the tests only convert positive angles above one degree and never negative or unlabelled text",
  ["welleng/utils.py"],
  [("angles", "utils.decimal2dms, dms2decimal"), ("text", "utils.pprint_dms, dms_from_string"), ("covariance", "utils.errors_from_cov, get_sigmas, make_long_cov"), ("dimensions", "utils.annular_volume, linear_convert")])

p("C33", "Mesh clearance reports the figures of its own closest points",
  "Mesh clearance compares every interval of the reference well, meshed on its own, with one mesh of the whole offset well, and with data requested adds exactly one entry per interval to each result: the distance and horizontal bearing [0, 360) from the reference path point to the offset path point, the depths of those two points, the collision outcome, the hole sizes at the interval's first station and the offset station nearest the closest mesh point, and each boundary's distance less half the project-ahead sigma and the hole radius (and the margin, for the offset) over sigma. The offset point is the nearer of those on the two intervals next to that station. The separation factor is distance / (distance + overlap) in collision (0 if either vanishes), else distance / (distance - mesh distance), infinite if these are equal. A path point is sought between the two stations of its interval and is the one found.",
  ["inputs", "configurations"], "all well pairs, intervals, nearest stations, collision outcomes",
  "no test runs mesh clearance; sums and sides are only right or wrong for particular geometries",
  ["welleng/clearance.py"],
  [("sections", "clearance.MeshClearance._process_well"), ("closest points", "clearance.MeshClearance._get_closest_nev, _fun"), ("set-up", "clearance.MeshClearance.__init__")])

# outside the reach of this family (kept here for completeness; not claimed)
p("C40", "Connected paths reach their target within tolerance",
  "For every feasible pair of start and target, the connector's interpolated path ends at the target position and direction within its tolerance and never exceeds the design curvature unless the geometry demands it.",
  ["inputs"], "all start/target geometries", "numerical convergence of an iterative solver over all geometries",
  ["welleng/connector.py"], [("iterative solver", "connector.minimize_target_pos_and_vec_defined")])
p("C41", "The reported closest approach is the global minimum",
  "For every pair of wells the reported closest points are the closest pair on the two continuous trajectories, and the reported minimum separation factor is not larger than at any point between stations.",
  ["inputs"], "all well pairs", "result of numerical optimisation over continuous curves",
  ["welleng/clearance.py"], [("closest-point search", "clearance.IscwsaClearance._get_closest_points")])
p("C42", "Computed uncertainties match the ISCWSA reference workbooks",
  "For every reference well the computed covariances agree with the published ISCWSA diagnostic values within their stated tolerance.",
  ["inputs"], "all reference wells", "numerical agreement with external data",
  ["welleng/errors/iscwsa_validate.py"], [("validation", "errors.iscwsa_validate")])
p("C43", "Uncertainty meshes are closed and non-self-intersecting",
  "Every generated mesh is watertight, consistently oriented and free of self-intersection.",
  ["inputs"], "all surveys", "geometry of floating-point vertices", ["welleng/mesh.py"], [("mesh", "mesh.WellMesh._align_verts")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
