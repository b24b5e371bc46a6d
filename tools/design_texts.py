HEAD = '''
# Static verification of welleng

Family: static analysis only. A check parses /repo's current sources (Python syntax trees, and the shipped YAML/JSON
tables as data) on every run and decides its property from them; nothing of /repo is imported or executed, and no path is
handed to a solver. `python3 check.py Cnn --tier quick|thorough` runs one check, needs only the standard library (plus
PyYAML for the shipped tables), prints the obligations that are not discharged, writes `evidence/Cnn.json`, and reports
each violation at a function, call site or construct.

## How the machinery works

- `vp/loader.py` parses the package and resolves names, imports, classes (method resolution order), properties.
- `vp/aeval.py` + `vp/terms.py`: **value numbering**, an abstract interpreter over the syntax tree. Every expression gets a
  hash-consed term; branches merge into conditional terms, loops into recurrences, objects into a symbolic heap; calls of
  repository functions are inlined up to a point and otherwise kept as uninterpreted calls. It also records events (calls
  with their bound arguments, object constructions, stores, raises) with the guards they stand under.
- `vp/lower.py`, `vp/nf.py`, `vp/formula.py`: terms over arrays are lowered to one scalar term per component and station
  (`md[n]`, `md[n-1]`, …), brought to an **algebraic normal form** (polynomials over opaque atoms, trigonometric and
  min/max/abs rewriting, conditions split by interval facts) and compared with a reference formula from `spec/`, which is
  a Python text read by the same evaluator. *Equal normal form* ⇒ discharged. *Different* ⇒ a violation only if, in
  addition, an interpretation of the free symbols inside their stated ranges separates the two and the value rests on no
  construct the analysis cannot read; otherwise the obligation is listed as undecided. So a re-arranged formula stays quiet
  and an unreadable one is never called a bug. (The separating interpretation is evaluated on the two normal forms, not by
  running the code.)
- `vp/text.py`: a layout domain for text (literal characters and formatted fields) used for file formats.
- `vp/owner.py`: an interprocedural ownership/effect analysis (who owns the object a statement changes), to a fixpoint.
- `vp/states.py`: disjunctive dataflow over None-ness, constants and the attributes of one object, with provenance tags.
- `vp/kinds.py`: dataflow of quantity kinds (angle unit, azimuth reference, owner and frame of positions).
- `spec/`: the reference formulas (written from the published methods and the documentation, not from the code), the
  attribute vocabulary, the frozen public names (`api.txt`) and the published ISCWSA formulas (`formulas.json`).

Rules of restraint, the same for all checks: unknown ⇒ quiet (counted as undecided in the evidence); private functions
may disappear or be renamed (undecided), public ones may not (the check exits 2, "analysis broken", because it would
otherwise be vacuous); findings are keyed by rule and construct without line numbers; each check has a minimum number of
discharged obligations below which it refuses to pass, so that an analysis that silently reads nothing cannot pass.

Tiers: *quick* is what is meant to run on every change; *thorough* raises the number of separating interpretations, the
number of conditions split, the option combinations and the history lengths.
'''
PROPS = {
'C01': [('analysed', 'get_rf, min_curve_step, MinCurve, Survey positions (pos_xyz, pos_nev, n/e/tvd), interpolation by depth, arcs, node placement, project_ahead and the connector interpolators, helpers inlined.'),
        ('oracle', 'the minimum-curvature displacement with ratio factor tan(d/2)/(d/2) (limit 1) in `spec/core.py`.'),
        ('bounds', 'any number of stations (station index symbolic); start positions, units and both angle flags.'),
        ('beyond tests', 'the tests compare a few wells to 1e-2; a wrong branch at small doglegs, near 180° or at a datum offset is invisible there but changes the normal form.')],
'C02': [('analysed', 'every function of the package, entered once for each setting of its angle flag and each azimuth reference, with callees entered at the kinds of their arguments; the fields a header keeps.'),
        ('oracle', 'the units that names declare (`_deg`, `_rad`, published angles), trigonometry in radians, each conversion once.'),
        ('bounds', 'what is unknown (a number from a file, a factor that is not a constant) is not reported, so an angle whose unit no name and no conversion states is outside.'),
        ('beyond tests', 'tests use one setting of a flag per function, and small angles hide a missing conversion.')],
'C03': [('analysed', 'Survey construction for every reference (grid, true, magnetic) × degrees/radians, and every published azimuth.'),
        ('oracle', 'true = grid + convergence; magnetic = true − declination, as angles modulo whole turns.'),
        ('bounds', 'all stations, all header angles.'), ('beyond tests', 'tests use convergence or declination zero in most cases, which hides sign and unit errors.')],
'C04': [('analysed', 'each construction of a survey from another\'s stations, for a source in grid, true and magnetic reference.'), ('oracle', 'the reference of the attribute or node the azimuths were read from, against that of the header passed (followed through copies and edits of the header).'),
        ('bounds', 'a local survey of which only depths, inclinations and doglegs are read is free; azimuths of a file or of unknown origin are undecided.'), ('beyond tests', 'tests have grid surveys, or convergence zero, where all references agree.')],
'C05': [('analysed', 'each construction of a survey, connector or node list from another survey\'s stations; angle flags and units as in C02.'), ('oracle', 'unit traced to the source; angle flag against the unit of the angles; start position traced to the station at which the depths start.'),
        ('bounds', 'unit and origin are left free where nothing that depends on them is read from a local result.'), ('beyond tests', 'tests build surveys in metres at the origin, where a dropped unit or start position changes nothing.')],
'C06': [('analysed', 'every frame conversion (NEV/XYZ/HLA, vectors, matrices, flags) and pairs of them.'), ('oracle', '`spec/core.py` definitions and the identity of the round trip.'),
        ('bounds', 'single vectors, rows of vectors, 3×3 matrices.'), ('beyond tests', 'one attitude in a test cannot tell a rotation from its transpose at symmetric angles, nor an origin taken off on the wrong side of an axis swap.')],
'C07': [('analysed', 'every function of the package; in-place changes (subscript and attribute stores, augmented assignment, mutating methods, numpy out=/in-place calls) traced through aliases, attributes, containers and calls.'),
        ('oracle', 'no public operation changes an object its caller handed in, a default value, or data it handed out before, except the operations whose stated purpose is the change (listed in the check).'),
        ('bounds', 'four levels of ownership depth; changes behind containers of unknown content are undecided.'), ('beyond tests', 'tests inspect results, not their inputs afterwards; sharing shows only in histories of several calls.')],
'C08': [('analysed', 'every shipped YAML/JSON tool definition, every registry entry, every term and formula text, against the tables in the source (weight functions, modes, unit conversion, formula variables), which are themselves read by value numbering.'),
        ('oracle', 'each definition is reachable, each term has a function or a formula all whose names are bound, each magnitude unit is converted to SI the way its unit says.'),
        ('bounds', 'all definitions that ship (6 475 obligations).'), ('beyond tests', 'tests load a handful of models; an unreachable or partly dropped model is silent.')],
'C09': [('analysed', 'all weight functions of errors/tool_errors.py, their near-vertical branches, and the formula texts.'), ('oracle', '`spec/errors.py`, `spec/weights.py`: the published sensitivities; `spec/formulas.json`: the frozen published expressions.'),
        ('bounds', 'any station including first and last, near-vertical and not.'), ('beyond tests', 'the workbook tests cover the MWD terms on three wells; gyro, XYM3E/4E, singular and end-station branches are not reached.')],
'C10': [('analysed', 'Jacobian, error vectors, accumulation per mode, sum over terms, revision-4 rules, what Survey publishes.'), ('oracle', '`spec/errors.py` reference accumulation.'), ('bounds', 'any number of stations.'),
        ('beyond tests', 'the sum over all terms can be right while one mode is booked wrongly.')],
'C11': [('analysed', 'covariance routines, error terms per mode, totals, interpolations (survey, clearance), the section below a kick-off, and every store, append and argument named as a covariance.'), ('oracle', 'the cone: outer products of one vector, R C R\', sums, non-negative multiples, interpolation between neighbours; symmetric components.'), ('bounds', 'that the interpolation factor lies in 0..1 is decided where the stations are symbolic neighbours, not inside the resampling loop; the random part below a kick-off is a difference of one accumulated covariance from its own kick-off value, non-negative because a term without depth error only adds from station to station.'), ('beyond tests', 'a subtraction, an extrapolation or an asymmetric product gives negative variances only for some wells; tests compare a few diagonal entries.')],
'C12': [('analysed', 'the formula evaluator and every other place that could turn text into code.'), ('oracle', 'only arithmetic node classes reach evaluation; the namespace replaces the builtins.'), ('bounds', 'every node class of the `ast` module at seven places.'),
        ('beyond tests', 'tests try a few attack strings; the lattice covers all node classes.')],
'C13': [('analysed', 'Clearance end to end.'), ('oracle', '`spec/clearance.py`: ISCWSA separation rule.'), ('bounds', 'any stations; the minimiser is opaque (its objective, bounds and use are decided).'),
        ('beyond tests', 'compared wells share radius, sigma and a datum, so exchanged ingredients cancel.')],
'C15': [('analysed', 'Connector construction for 32 target combinations × options, start forms and nodes; then the interpolation of whatever was set.'), ('oracle', 'the table of contradictory combinations and of permitted methods in `vp/checks/c15.py` (from the documentation).'),
        ('bounds', 'values are abstract (None / not None / constant); loops to a fixpoint.'), ('beyond tests', 'about a dozen of the combinations are driven by tests.')],
'C16': [('analysed', 'every connector method that keeps a copy of the solution while it tries another (found by what it does, not by name).'), ('oracle', 'all attributes the interpolation reads carry one attempt number at each way out; the first attempt can be undone.'),
        ('bounds', 'attempts are counted up to three and then saturate; whether the better attempt is kept is a numerical matter and not decided.'), ('beyond tests', 'retries need rare geometries.')],
'C17': [('analysed', 'solve_curve_hold_batch / connector curve-hold; get_toolface_fast / plain; stacked / separate Jacobian kernels.'), ('oracle', 'the plain version and a reference in `spec/batched.py`.'), ('bounds', 'single and batched shapes, negative doglegs, zero-length curves.'),
        ('beyond tests', 'tests sample a few geometries with tolerances.')],
'C18': [('analysed', 'the .wbp exporter and importer.'), ('oracle', 'the importer evaluated over the exporter\'s layout gives back every written value with enough decimals and room.'), ('bounds', 'all code-table entries; values are assumed to fit their columns, names to be free of colons and repeated blanks.'),
        ('beyond tests', 'one sample file.')],
'C19': [('analysed', 'EDM queries (selection, ancestors, wellbore data, survey stations, tags) as histories on symbolic record trees.'), ('oracle', '`spec/edm.py`.'), ('bounds', 'three requested attributes, three generations, the listed tables; histories of up to three queries.'),
        ('beyond tests', 'the sample file has few wells and unique values; order of queries is never varied.')],
'C20': [('analysed', 'WellMesh ring vertices for each method, alignment of rings, transfer of settings.'), ('oracle', '`spec/mesh.py`: rings of the stated semi-axes around the station.'), ('bounds', 'rings of eight vertices, any station; eigen-decomposition opaque.'),
        ('beyond tests', 'tests only build meshes.')],
'C21': [('analysed', 'torque-and-drag element equations, march, section lookups, published cases, the stations the model adds, and what the hook-load model runs.'), ('oracle', '`spec/drag.py`: soft-string equations.'), ('bounds', 'recurrences recognised for any number of stations, every load case.'), ('beyond tests', 'one case with tolerance.')],
'C22': [('analysed', 'String / casing additions as histories.'), ('oracle', '`spec/strings.py`: sections tile the string without gap or overlap, from the stated side.'), ('bounds', 'histories of up to twelve additions.'), ('beyond tests', 'one order of additions.')],
'C23': [('analysed', 'every module under assumed sets of missing optional packages.'), ('oracle', 'no unbound name on a path that can be entered; a refusal explains itself.'), ('bounds', 'single packages, all, all but one; every subset in the thorough tier.'), ('beyond tests', 'tests run in one installation.')],
'C14': [('analysed', 'every parameter of every public function, method and constructor: a forward flow of data and control through its statements, through methods of the same object, through callees by their own summaries, into the result, effects, attributes read elsewhere, and the same-named options of callees; keywords taken by name out of `**kwargs`.'), ('oracle', 'an option reaches something that can be seen; what shaped a result or a published attribute (`spec/options.txt`, `spec/influences.txt`) still does, by its value where it is a number; an option both caller and callee accept is passed on (`spec/fed.txt`); reviewed exceptions in `spec/ignored.txt` and `spec/omitted.txt`.'), ('bounds', 'a may-flow: an option that influences something wrongly, or only in some cases, is left to the value-level checks; calls with arguments not written out are undecided.'), ('beyond tests', 'tests leave options at their defaults.')],
'C24': [('analysed', 'every function (names bound on every path), every class (attributes set on every construction path that reaches a read, and the published attributes of `spec/published.txt` at every end of construction), every attribute read and call whose object class is evident.'), ('oracle', 'Python binding rules; a call supplies what its callee requires and only what it accepts.'), ('bounds', 'loops run at least once; a choice among named alternatives (`if kind == "a" ... elif kind == "b"`) is taken to be complete; objects whose class is not evident are left alone; classes with outside bases are not followed.'), ('beyond tests', 'the paths that raise AttributeError are the option combinations nobody samples.')],
'C25': [('analysed', 'all functions and module bodies: nondeterministic sources, lasting state.'), ('oracle', 'no result depends on a source its inputs do not determine; stored state is keyed by what determines it.'), ('bounds', 'third-party internals are outside.'), ('beyond tests', 'a repeat in one process with one hash seed cannot show it.')],
'C26': [('analysed', 'dls/radius conversions, build and turn rates, per-unit denominators of survey, connector, planning helpers.'), ('oracle', '`spec/survey.py`: per 30 m, per 100 ft.'), ('bounds', 'both units, both flags.'), ('beyond tests', 'tests are metric.')],
'C27': [('analysed', 'fluid composition and density.'), ('oracle', '`spec/fluid.py`: volume balance and the compressibility model.'), ('bounds', 'identities of normal forms; the root finder is opaque.'), ('beyond tests', 'one fluid.')],
'C28': [('analysed', 'dogleg, toolface, normals, build and turn rates, vertical section, the control points\' rates, toolface and location.'), ('oracle', '`spec/survey.py`.'), ('bounds', 'any station.'), ('beyond tests', 'sampled to loose tolerances.')],
'C29': [('analysed', 'every item that `get_node`, `slice_survey`, `SurveyData`, `project_to_target`, `interpolate_survey`, `interpolate_md`, `interpolate_tvd`, `from_connections`, `_interpolate_survey` and `maximum_curvature` hand to the survey or node they build.'), ('oracle', 'the specified read: attribute and rows of the source; the flags as Boolean functions of the station tests. A value is reported only when it is itself a plain read (or a constant) of something else; anything less direct is undecided.'), ('bounds', 'any station, slice and number of spliced surveys; numerical blending of covariances is C11\'s.'), ('beyond tests', 'derived covariances, radii and flags are hardly asserted at all.')],
'C30': [('analysed', 'the index functions (pint conversions replaced by their factors, for both length units), the section bookkeeping and both arc centres.'), ('oracle', 'IADC/SPE 59196 and the IADD definition, written in `spec/survey.py`; the centre as position plus radius times the in-plane normal.'), ('bounds', 'any trajectory; the accumulation over sections is checked per term (value added, start of the sum, member stations), not as an unrolled sum.'), ('beyond tests', 'no feet survey and no multi-section trajectory is tested; two defects were found (and repaired) here.')],
'C31': [('analysed', 'the table built by `survey_to_df`, the file written by `export_csv` (headings, `get_data` columns, turn-point fields and the values `get_sections` gives them), and each trace, axis title, hover placeholder and custom-data column of the figures.'), ('oracle', 'a dictionary of what each heading promises (quantity and angle unit) against the value number of the column under it. Headings it does not know are undecided.'), ('bounds', 'any survey and load case; appearance (colour, size) is outside.'), ('beyond tests', 'nothing asserts exported or plotted values.')],
'C32': [('analysed', 'the conversion helpers of utils.py.'), ('oracle', 'the sexagesimal definition; the inverse helper; the element positions of a symmetric matrix; the annulus formula.'), ('bounds', 'scalar conversions are constant-folded for one representative per sign and range class (zero, below a minute, below a degree, above); layouts and volumes by normal form, any value.'), ('beyond tests', 'only positive angles above a degree are tested; three defects were found (and repaired) here.')],
'C33': [('analysed', 'MeshClearance.__init__, the loop over the reference sections with its helpers, and the search for the closest point.'), ('oracle', 'the definitions in the property, evaluated for the same section, nearest station, collision outcome and side.'), ('bounds', 'value-numbered results are constant-folded for 3 sections x 5 offset stations x collision or not x nearer side, plus touching meshes, meeting paths and a vanishing denominator; the mesh comparison and the minimiser themselves are leaves.'), ('beyond tests', 'no test runs mesh clearance.')],
}
TAIL = '''
## Decisions on false alarms

While the checks were built, every violation on the unchanged tree was reproduced against the real code by hand before
it was called a defect (that led to the repairs above). These were the check's fault and were corrected there:

- comparisons modulo whole turns for azimuths (C03, C28), clipping of cosines to [−1, 1] as a no-op inside the range (C01),
  rounding for display (C13), degenerate doglegs (limits of tan(x)/x) as equal;
- C07: objects created in the function and attributes the operation exists to set are not the caller's data;
- C15: numbers are not counted in loops; `hasattr`-guarded reads are decided by what was set on that path;
- C16: a value put in by hand before an attempt belongs to that attempt, afterwards it is neutral;
- C23: names bound on every path before their use in a function are not module availability;
- C25: orders that are sorted before use, and memo tables keyed by all that determines the value, are no violation.
- C11: a copy of a covariance keeps the name of its source, so that a station's covariance taken from a local copy is compared with its own source; a name
  bound more than once is not known;
- C14: a container mutated through a second name (a loop over a tuple of lists, an alias) still depends on what goes in;
- C16: nested comprehensions in the interpolation are followed, and a retry routine that cannot be found is undecided, not broken.

Each time the engine grew, all 33 checks were run on three heavily refactored copies of the repository (about 150 behaviour-preserving edits together: helpers
extracted, loops turned into comprehensions, early returns, tables instead of assignments); what was reported there was corrected as above.
Undecided constructs never raise an alarm; a check ends with exit 2 only when a public entry point of its property vanished.

## Observed and left alone

Not property violations as stated, or too large for a small repair:

- Clearance options `Rr`/`Ro` only matter where a survey has no radius; Survey always has one (C14 known finding).
- Position covariances are computed in the true-north frame while positions are grid; error magnitudes in metres are
  applied to surveys in feet as they are.
- Connector: a position with only one angle solves curve-and-hold and ignores the angle; `dls`/`tangent_length` are not
  restored after a rejected retry (the interpolation does not read them).
- survey.py: `kwargs.get('kapa')` spelling; `interpolate_survey_tvd(stop)`, `survey_to_plan(step)`, `directional_difficulty_index(data)` are ignored.
- torque_drag.py figures support four friction factors; fluid.py uses SciPy's removed interp2d in a demo; iscwsa_mwd.py is a legacy module nobody calls.
- Exports: TVDSS has the opposite sign in `export_csv` (−tvd) and `survey_to_df` (+tvd); labels say metres and 30 m for
  surveys in feet; the torque-drag figures assume metres; the tortuosity index's default coefficient is not unit-aware.
- `interpolate_survey` keeps covariance only where an error model is set; `splice_surveys` needs a covariance; the default
  hole radius 0.3048 is used for surveys in feet as well.
- `decimal2dms` can print 60.0 seconds after rounding (the value is right, the carry is not taken).
- edm.py queries by name lose duplicates by design of their result type.

## Limits

Static normal forms decide formulas, not floating-point error; third-party functions (NumPy, SciPy optimisers, vtk,
pyproj) are taken at their documentation; properties about converged iterates are not applicable (see above).
- The vertical section is accumulated from the mean azimuth of each pair of stations and the horizontal chord, an approximation of the vertical section as the
  projection N cos + E sin: a vertical station counts with the section azimuth, so the two differ for wells that leave the vertical away from the section plane.
'''
