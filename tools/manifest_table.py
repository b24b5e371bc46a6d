VN = 'value numbering (abstract interpretation of the syntax tree) with algebraic normal forms against reference formulas'
Q = ' Reported only when the normal forms differ and are separated by an assignment of the free symbols; a difference that rests on a construct the analysis cannot read is listed as undecided.'
TABLE = {
'C01': (VN, 'Every routine that turns md/inc/azi into positions is value-numbered with helpers inlined; each component is compared with the minimum-curvature law.' + Q),
'C02': ('static analysis: interprocedural dataflow of angle units (degrees/radians) through names, attributes, tables and calls', 'Every function is followed with a unit for each name, once per angle flag and azimuth reference; a known unit that meets trigonometry, a conversion, a sum or a declared name of the other unit is a violation. Angles of unknown unit are not reported.'),
'C03': (VN, 'The survey constructor is value-numbered for each azimuth reference and unit; each published azimuth is compared with the convergence/declination relation modulo whole turns.' + Q),
'C04': ('static analysis: dataflow of the azimuth reference from where azimuths were read to the header they are declared with', 'Every construction of a survey from another survey, for each reference of the source; azimuths whose origin is unknown are undecided (quiet).'),
'C05': ('static analysis: dataflow of length unit, angle unit and origin from the source survey to each construction', 'Every construction of a survey, connector or node from another survey; unit, angle flag and start positions are traced to the source. Values of unknown origin are undecided (quiet).'),
'C06': (VN, 'Every frame conversion is value-numbered and its components compared with the NEV/XYZ/HLA definitions, inverse pairs included.' + Q),
'C07': ('ownership (effect) analysis: who owns each value, interprocedural summaries to a fixpoint', 'For each public function, method and constructor the owners of every changed object are computed through copies, attributes, containers and calls; a write that certainly reaches data the caller passed in, a kept argument that a later operation of the class changes, or a shared default value is reported, each with its call chain. Ownership is followed four levels deep; changes behind containers of unknown content are listed as undecided.'),
'C08': ('cross-checking of shipped definitions (data) against tables read from the source by value numbering', 'Every registry entry, every term of every YAML and JSON definition and every formula text is held against the weight functions, propagation mapping, magnitude scale per unit and formula variables that the source really applies (read by value-numbering the adapter, the dispatcher and the interpreter per mode and unit). One known finding: a registered model without a definition file.'),
'C09': (VN, 'Each weight function is value-numbered with the error model inlined; the sensitivities per station, the near-vertical error vectors and the shipped formula texts are compared with the frozen published formulas.' + Q),
'C10': (VN, 'The Jacobian, the error vectors, their accumulation for each propagation mode, the sum over all terms and the matrices the survey publishes are value-numbered and compared with the reference accumulation.' + Q),
'C11': ('Value numbering to an algebraic normal form against the cone of covariances, plus an abstract interpretation of every stored covariance expression over that cone', 'Each construction of a covariance is value-numbered and matched with an outer product, rotation, sum or interpolation; one that matches none is reported only if its normal form is asymmetric or symmetric component values give it a negative variance. Every expression stored or passed under a covariance name is classified (covariance, difference, multiple). An interpolation factor in a loop is read by its shape only.'),
'C12': ('abstract interpretation of the formula evaluator over a lattice of syntax-node classes; dominance of inspection over evaluation', 'Trees with a non-arithmetic node at seven kinds of place are sent through the evaluator with only the node classes known (lattice of the ast module); each must be refused on every path before evaluation. The evaluated object must be the inspected one, the namespace must replace the builtins and hold only numeric functions and the bindings, and no other place in the package turns text into code.'),
'C13': (VN, 'Clearance is value-numbered end to end: station values, interpolation between stations, closest-point inputs, relative vectors, uncertainty ellipses, separation factor, below-kick-off selection; each compared with the reference formula. The numerical minimiser itself is opaque.' + Q),
'C14': ('static analysis: forward data and control flow of options', 'whether each option can influence a result, effect, published attribute or the callee option of the same name; not whether it influences it rightly'),
'C15': ('static analysis: disjunctive dataflow (None-ness, constants, attributes set) from source through construction and interpolation, for every combination of given and missing inputs', 'Decides which combinations are rejected, which method solves the rest, and that no attribute the interpolation reads is missing or None on any way through; the numeric quality of the solution is not decided.'),
'C16': ('static analysis: dataflow of the provenance of each attribute (which attempt wrote it) through copies, attempts and write-backs, over every path of each retry method', 'Every method that tries an alternative while keeping a copy is followed on all paths; at each way out the attributes the interpolation reads must stem from one attempt. Whether the better attempt is the one kept is not decided.'),
'C17': (VN, 'The batched curve-and-hold solver, the connector method it replaces, the fast and plain toolface routines and the stacked and separate sensitivity kernels are each value-numbered, for single vectors and for rows of vectors, and compared with one reference or with each other.' + Q),
'C18': ('abstract interpretation over text layouts (literals and formatted fields)', 'The document the exporter makes is derived as a layout with symbolic values, and the importer is evaluated over that layout, slices, splits and conversions included; every attribute read back must be the value it was written from, with enough decimals and room in its column. All code-table entries are taken through the trip. Values are assumed to fit their columns and names to be free of colons and repeated blanks.'),
'C19': ('value numbering of query histories under equality patterns (abstract interpretation)', 'Histories of queries are evaluated on record trees with symbolic values, one run per pattern of equal, different and missing values (the code compares values for equality only, depths for order), so the selection derived holds for all values of the pattern. Bounded to three requested attributes, three generations and the listed tables.'),
'C20': (VN, 'The ring vertices of every construction method are value-numbered from the mesh constructor through rotation and placement (rings of eight vertices, any station) and compared with rings of the stated semi-axes; ring alignment must be a re-ordering; settings and margin are compared at each place a mesh is built. Eigen-decomposition is opaque.' + Q),
'C21': (VN, 'The element equations and the march from bit to surface are value-numbered; each recurrence over the stations is recognised and its start, step and element values compared with the soft-string equations for every load case, as are the section lookups and the published entries.' + Q),
'C22': ('value numbering of addition histories under assumed depth orders (abstract interpretation), limits compared as normal forms', 'Histories of additions are evaluated with symbolic extents per order class of the depths, so that every comparison is decided; the recorded tops and bottoms are compared as normal forms with the tiling they must form, hence for every value in the class. Bounded to the listed histories (up to twelve additions).'),
'C23': ('path-sensitive traversal under every assumed set of missing packages (constant propagation of availability flags, interprocedural)', 'For every assumed set of missing packages (single ones, all, all but one; in the thorough tier every subset) each module body is interpreted to find which names stay unbound and which flags become false, and every function that can then be entered is traversed: a use of an unbound name on any path, an import nothing catches, or a refusal without a message is reported. Decorated and dynamically looked-up functions are left undecided.'),
'C24': ('static analysis: definite assignment, constructor typestate and call binding', 'every function followed path by path for unbound names; every class followed from construction for attributes never set; attribute reads and calls of objects whose class is evident'),
'C25': ('taint analysis of nondeterminism sources (interprocedural) and lasting-state analysis with memo keys', 'Every function and module body is scanned for sources the inputs do not determine (unseeded random numbers, clock, environment, identity, set and listing order, unwritten memory), each followed to a result over names and returning functions; every store into module, class or first-use state is held against its key. Ordering inside third-party libraries and floating-point summation order are outside its view.'),
'C26': (VN, 'Severity, rate and radius formulas are value-numbered for metric and imperial separately and compared with the per-30 m / per-100 ft definitions.' + Q),
'C27': (VN, 'The reference volumes and densities, the density equations and the residual handed to the root finder are value-numbered and compared with the mass/volume balance and the published compressibility model; that the volumes sum to one and reproduce the density is decided as an identity of the normal forms. The root finder is opaque.' + Q),
'C28': (VN, 'Each published scalar is value-numbered from the survey constructor and compared with its definition.' + Q),
'C29': ('value numbering of survey-deriving routines; reads of station data reduced to attribute and rows and compared with the specified read', 'Each item handed to a derived survey or node is decided separately; an item whose value is not a plain read of the source is left undecided.'),
'C30': (VN, 'Indices and arc centres are value-numbered and compared by normal form with the published definitions; the sum over sections is decided term by term.' + Q),
'C31': (VN, 'Headings, titles and hover placeholders are paired with the value number of the column or trace they label; a column whose value is evidently another quantity is reported.' + Q),
'C32': (VN, 'Scalar conversions are value-numbered and constant-folded per sign and range class, composed with their inverse; layouts and volumes are compared by normal form.' + Q),
'C33': (VN, 'Results of the section loop are value-numbered and constant-folded for every section, nearest station, collision outcome and nearer side.' + Q),
}
NA = {
'C40': 'Convergence and optimality of iterative solvers over all inputs: no static argument in reach bounds the iterates.',
'C41': 'The closest pair is found by a numerical optimiser over interpolated trajectories; that its result is the global minimum is a statement about run-time iterates that no static argument in reach bounds.',
'C42': 'Agreement with published numbers is a numerical comparison of computed values; it needs the code to be run. The formulas those numbers come from are decided statically under C08 to C11.',
'C43': 'Watertightness and absence of self-intersection depend on the run-time geometry of the rings; no static bound on it is in reach. The ring construction itself is decided under C20.',
}
