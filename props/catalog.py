"""the property list (source of properties.jsonl and MANIFEST.json)"""
TECH = ("contract-based deductive verification: pre/postconditions and loop "
        "invariants on the real functions, extracted mechanically from /repo "
        "on every run, obligations discharged by z3/cvc5; bounded runtime "
        "evaluation of the same contracts confirms counterexamples")
NOTES = ("./check Pxx [--tier quick|thorough] [--only unit] [-v]; engine in "
         "vpy/, contracts in props/, bounded stand-ins marked 'rt'. See "
         "DESIGN.md.")
R = "scikit-topt/sktopt/"
ENGINE = (" Trusted: the vpy verification-condition generator and its numpy "
          "model, z3/cvc5; floats are reals in proofs (the bounded groups "
          "run real floats).")
PROPS = [
    dict(id="P01", title="Continuation schedules stay in range, progress "
         "monotonically, end on target",
         statement="Every step-type continuation schedule (linear, "
         "accelerating, decelerating) returns a value between its initial "
         "and target value at every iteration, never moves away from the "
         "target as iterations advance, and equals the target from the last "
         "planned iteration on. With the same settings an accelerating "
         "schedule is never ahead of the linear one and a decelerating one "
         "never behind it.",
         over=["inputs", "configurations"],
         forall="all totals, step counts, initial/target values, "
         "curvatures >= 1 (order) or > 0 (range) and iterations",
         why="Tests sample a few totals, step counts and curvatures; the "
         "range and order must hold at each of infinitely many settings.",
         files=[R + "tools/scheduler.py"],
         mech=[("step schedules", R + "tools/scheduler.py:74-218"),
               ("scheduler classes", R + "tools/scheduler.py:687-1085")],
         note="All obligations proved over reals/integers for symbolic "
         "totals, counts and curvature (curved powers through axioms on the "
         "power function)." + ENGINE),
    dict(id="P02", title="Sawtooth schedules reset only at cycle starts and "
         "decay linearly in between",
         statement="A sawtooth schedule starts every cycle at its initial "
         "value, moves linearly towards its target inside the cycle, never "
         "leaves the interval between the two, and equals the target from "
         "the last planned iteration on. Non-positive totals or cycle "
         "counts are rejected.",
         over=["inputs", "configurations"],
         forall="all totals, cycle counts, initial/target values, iterations",
         why="No test touches the sawtooth schedule's values; rounding at "
         "cycle boundaries only bites for particular total/count pairs.",
         files=[R + "tools/scheduler.py"],
         mech=[("sawtooth schedule", R + "tools/scheduler.py:219-272")],
         note="Proved for all integer settings; the float behaviour at cycle "
         "boundaries is checked bounded against exact rationals." + ENGINE),
    dict(id="P03", title="Schedule configurations build exactly the schedule "
         "they describe",
         statement="A schedule configuration yields a schedule with exactly "
         "the supplied parameters; 'to one' variants ramp from "
         "1/number-of-steps up to exactly one and reject any other target; "
         "invalid parameters are rejected, a disabled schedule yields "
         "nothing. A collection of schedules returns one value per requested "
         "name, in the requested order, and a changed iteration total "
         "reaches every schedule.",
         over=["configurations", "inputs"],
         forall="all schedule types, parameter subsets and values, name "
         "lists, iterations",
         why="Tests construct a handful of configurations; each type times "
         "parameter subset is a separate path.",
         files=[R + "tools/scheduler.py"],
         mech=[("configuration validation", R + "tools/scheduler.py:275-500"),
               ("collection", R + "tools/scheduler.py:1156-1240")],
         note="Proved for symbolic parameter values; all type x parameter "
         "subsets enumerated on the real code." + ENGINE),
    dict(id="P04", title="Density projection maps [0,1] monotonically onto "
         "itself and keeps void and solid",
         statement="The threshold projection of a density lies in [0,1], is "
         "zero exactly where the density is zero, one where it is one, and "
         "strictly increases with the density. The allocating and the "
         "in-place forms give the same values, and the projected field is "
         "the only array written.",
         over=["inputs"],
         forall="all densities in [0,1], array lengths, sharpness > 0 and "
         "thresholds in [0,1]",
         why="Tests run the projection only inside short optimisations with "
         "one threshold and a few sharpness values.",
         files=[R + "core/projection.py"],
         mech=[("projection and in-place form", R + "core/projection.py")],
         note="Proved over reals using monotonicity/oddness/range axioms of "
         "tanh." + ENGINE),
    dict(id="P05", title="Projection derivative is the exact derivative of "
         "the projection",
         statement="The derivative handed to the sensitivity chain equals "
         "the derivative of the projection actually applied, at every "
         "density, sharpness and threshold; it is positive, and the in-place "
         "form writes the same values.",
         over=["inputs"],
         forall="all densities, lengths, sharpness > 0, thresholds in [0,1]",
         why="No test compares derivative and function; agreement must hold "
         "at every point.",
         files=[R + "core/projection.py"],
         mech=[("projection derivatives", R + "core/projection.py")],
         note="The projection code itself is differentiated (dual numbers "
         "through the real code) and the result proved equal to the "
         "derivative code." + ENGINE),
    dict(id="P06", title="Material interpolation: exact endpoints, monotone, "
         "penalising",
         statement="Both material interpolations return the void stiffness "
         "at density zero, the solid stiffness at density one, stay in "
         "between, grow with density and never exceed the linear mixture. "
         "The configured name selects the matching stiffness and "
         "sensitivity pair.",
         over=["inputs", "configurations"],
         forall="all densities in [0,1], lengths, 0 < Emin < E0, penalty "
         "powers in the documented range",
         why="Tests only run SIMP at a few penalties.",
         files=[R + "fea/composer.py",
                R + "core/optimizers/common_density.py"],
         mech=[("interpolations", R + "fea/composer.py"),
               ("selection", R + "core/optimizers/common_density.py")],
         note="Proved over reals." + ENGINE),
    dict(id="P07", title="Compliance sensitivities are exact derivatives and "
         "never positive",
         statement="For every density the element sensitivity equals minus "
         "the derivative of the interpolated stiffness times twice the "
         "element energy per unit stiffness, for each interpolation, so "
         "adding material never appears to raise compliance. In-place "
         "variants give the same values.",
         over=["inputs"],
         forall="all densities in (0,1], energies >= 0, lengths, "
         "0 < Emin < E0, penalties",
         why="No test differentiates the interpolation; RAMP is never "
         "exercised.",
         files=[R + "core/derivatives.py", R + "fea/composer.py"],
         mech=[("sensitivities", R + "core/derivatives.py")],
         note="Interpolation used by assembly is differentiated as code and "
         "compared symbolically." + ENGINE),
    dict(id="P08", title="Optimality-criteria update respects box, move "
         "limit and terminates",
         statement="For any sensitivities of either sign, the "
         "optimality-criteria update returns densities inside the "
         "configured bounds and within the move limit of the previous "
         "design, gives an element with stronger benefit at least as much "
         "material as an equal one, and never grows an element whose "
         "sensitivity is non-negative. It modifies none of its inputs and "
         "finishes for every filter response.",
         over=["inputs", "configurations"],
         forall="all array lengths, design subsets, sensitivities, bounds, "
         "move limits, exponents, filter responses and tolerances",
         why="Tests run two optimisations whose sensitivities are all "
         "negative; the bounds must hold for every iterate.",
         files=[R + "core/optimizers/oc.py"],
         mech=[("update and multiplier search",
                R + "core/optimizers/oc.py:16-95")],
         note="Loop cut at a Houdini-inferred inductive invariant, filter "
         "replaced by an arbitrary array of equal length (its contract); "
         "termination by a discharged measure." + ENGINE),
    dict(id="P09", title="Multiplier search keeps the volume target "
         "bracketed and meets it",
         statement="The volume-constraint search keeps halving a bracket "
         "that the volume error says contains the solution, stays inside "
         "the configured multiplier range and stops only at the volume "
         "tolerance, the bracket tolerance or the iteration cap. The "
         "returned design is the update at the returned multiplier and the "
         "reported error is the filtered, projected volume fraction minus "
         "the target; a larger multiplier never yields more material.",
         over=["inputs", "configurations"],
         forall="all sensitivities, volumes, filters, brackets, tolerances, "
         "iteration caps",
         why="Tests look at final results of short runs only; the search "
         "direction and exit conditions matter at every bracket.",
         files=[R + "core/optimizers/oc.py"],
         mech=[("multiplier search", R + "core/optimizers/oc.py:16-95")],
         note="Inductive step obligations at the loop back edge plus exit "
         "and result postconditions, all proved; float searches bounded." +
         ENGINE),
    dict(id="P10", title="Log-space multiplier update: bounds, move limit, "
         "descent, bounded dual",
         statement="The log-space multiplier update keeps every density "
         "inside the configured bounds and within the move limit of the "
         "previous design, never grows an element whose Lagrangian gradient "
         "is positive nor shrinks one whose gradient is negative. The "
         "multiplier follows the volume error by the configured rule and "
         "never leaves its configured range, whichever centring, filtering "
         "and normalisation options are on; the shared density fields are "
         "only read.",
         over=["inputs", "configurations"],
         forall="all array lengths, gradients, bounds, move limits, step "
         "sizes, clips, dual settings, option combinations listed in the "
         "units and filter responses",
         why="Tests only run two short optimisations with this update and "
         "compare chunked with full runs.",
         files=[R + "core/optimizers/logmoc.py"],
         mech=[("log-space step", R + "core/optimizers/logmoc.py:38-68"),
               ("dual update and scaling",
                R + "core/optimizers/logmoc.py:90-280")],
         note="The step is proved against its body, the whole update against "
         "the step's contract with an arbitrary filter (modular); exp/log "
         "through axioms." + ENGINE),
    dict(id="P14", title="Spatial density filter is a kernel average, its "
         "gradient the exact adjoint",
         statement="The spatial filter replaces the density of every design "
         "element by the kernel-weighted average of the design elements "
         "whose centres lie within the current radius: weights are positive, "
         "sum to one and do not grow with distance, so a constant field is "
         "unchanged and no new extremes appear. Elements outside the design "
         "are returned untouched, the inputs are only read, and the gradient "
         "is the transpose of the same weights, zero outside the design. "
         "Changing the radius rebuilds the weights for the new radius.",
         over=["inputs", "configurations"],
         forall="all meshes (any element count and geometry), design masks, "
         "radii, kernels, fields",
         why="Tests use one box mesh with one radius; adjointness and the "
         "averaging property must hold for every mask and radius.",
         files=[R + "filters/spacial.py"],
         mech=[("kernels and weight matrix",
                R + "filters/spacial.py:13-100"),
               ("forward, gradient, radius update",
                R + "filters/spacial.py:100-180")],
         note="Row loops over symbolically many elements become families "
         "indexed by the row; neighbour search and sparse constructors are "
         "contracts (all pairs within the radius; entry lists)." + ENGINE),
    dict(id="P15", title="PDE density filter averages, smooths with the set "
         "radius, keeps solid regions",
         statement="The PDE (Helmholtz) density filter turns element "
         "densities into volume-weighted nodal means that stay in the range "
         "of the densities, solves the screened Poisson equation with the "
         "current radius for them, and returns the mean over each element's "
         "nodes. Elements outside the design enter as solid and come out "
         "exactly solid; without a mask a constant field is unchanged. "
         "Inputs are only read, a changed radius takes effect on the next "
         "call, and the filtered sensitivity is never positive.",
         over=["inputs", "configurations"],
         forall="all tetrahedral and hexahedral meshes, volumes, design "
         "masks, radii, fields",
         why="Tests never use this filter with a mask; range and solid "
         "regions must hold on every mesh and mask.",
         files=[R + "filters/helmholtz_filter_nodal.py"],
         mech=[("element/node averaging",
                R + "filters/helmholtz_filter_nodal.py:25-60"),
               ("PDE solve and filter",
                R + "filters/helmholtz_filter_nodal.py:124-244")],
         note="The scatter loop is proved with array invariants over ghost "
         "partial sums; skfem's assembly, condensation and solve are "
         "contracts (the forms handed to them are the real ones)." +
         ENGINE),
    dict(id="P11", title="Only design densities change; everything else stays "
         "solid, bounds always hold",
         statement="Throughout an optimisation, at the start, before and "
         "after every update and at the end, whether run at once, in chunks "
         "or resumed, elements outside the design domain (including loaded "
         "elements and, unless they are designed, clamped ones) keep density "
         "exactly one and every design density stays between the configured "
         "bounds. A task without loaded elements behaves the same.",
         over=["inputs", "configurations", "histories"],
         forall="all element counts, design sets, bounds, iteration counts, "
         "chunkings, schedules, filter/solver responses",
         why="Tests look at the last compliance of two tiny runs; the frame "
         "must hold in every iteration of every run.",
         files=[R + "core/optimizers/common_density.py"],
         mech=[("initial densities and restart",
                R + "core/optimizers/common_density.py:680-745"),
               ("iteration loop",
                R + "core/optimizers/common_density.py:960-1240")],
         note="The real driver is executed symbolically with array and "
         "scalar loop invariants; finite elements, filter, projection, "
         "schedules, recorder and update rule are contracts proved under "
         "P04, P08-P10, P14, P15." + ENGINE),
    dict(id="P12", title="Full, chunked and resumed runs perform the same "
         "iterations exactly once",
         statement="Iterations run consecutively from where the previous "
         "call stopped, one density update each: exactly as many as "
         "requested or as remain, stopping earlier only on convergence. A "
         "run is complete exactly after its last iteration or on "
         "convergence, results are written once on completion, and further "
         "requests on a completed run change nothing. Running in chunks "
         "gives the same densities as running at once.",
         over=["histories", "configurations"],
         forall="all iteration totals, chunk sizes, recording frequencies, "
         "convergence events",
         why="One test compares a single two-chunk split; every split, "
         "convergence point and repeated call must account alike.",
         files=[R + "core/optimizers/common_density.py"],
         mech=[("state, chunk bounds, completion",
                R + "core/optimizers/common_density.py:860-960"),
               ("iteration loop",
                R + "core/optimizers/common_density.py:960-1260")],
         note="Ghost iteration counter carried by the loop cut; proved for "
         "symbolic totals and chunk sizes." + ENGINE),
    dict(id="P13", title="Checkpoints hold the iteration's densities; restart "
         "continues right after them",
         statement="Every checkpoint is named after its iteration and holds "
         "exactly the design densities that iteration produced; the last "
         "iteration of every run or chunk is saved. A restart continues "
         "right after the chosen checkpoint, or the newest complete one when "
         "none is chosen, with those design densities, everything else solid "
         "and the recorded histories loaded; unfinished or unrelated files "
         "in the folder are never taken for checkpoints.",
         over=["histories", "crash_points", "inputs"],
         forall="all iterations, design sets, folder contents and restart "
         "points",
         why="Tests never restart; any interruption may leave the folder in "
         "an arbitrary state.",
         files=[R + "core/optimizers/common_density.py", R + "core/misc.py"],
         mech=[("restart loading",
                R + "core/optimizers/common_density.py:700-745"),
               ("checkpoint writing",
                R + "core/optimizers/common_density.py:1140-1240"),
               ("newest checkpoint", R + "core/misc.py:1-40")],
         note="Save/load proved on the driver with npz writing as a "
         "contract; the file search and real npz round trips are checked "
         "bounded on real folders." + ENGINE),
    dict(id="P16", title="Mesh repair keeps every cell, only mirrors inverted "
         "ones; volumes are exact",
         statement="Orientation repair leaves every right-handed element as "
         "given and renumbers exactly the inverted ones so that they become "
         "right-handed while staying the same cell with the same faces; "
         "coordinates are untouched. The volume reported for an element is "
         "the volume of the cell: exact for tetrahedra and for "
         "parallelepiped hexahedra, so the volumes of a box mesh add up to "
         "the box. Inverted tetrahedra are reported, unknown cell types "
         "refused.",
         over=["inputs"],
         forall="all tetrahedral and hexahedral meshes: element counts, "
         "connectivities, coordinates, numberings",
         why="Volumes weight every volume constraint and filter; tests only "
         "run on meshes where all cells are equal, so a wrong factor "
         "cancels.",
         files=[R + "mesh/utils.py", R + "fea/composer.py",
                R + "mesh/toy_problem.py"],
         mech=[("orientation repair", R + "mesh/utils.py:18-140"),
               ("element volumes", R + "fea/composer.py:150-316"),
               ("box meshes", R + "mesh/toy_problem.py:20-120")],
         note="Functional loop invariants over the connectivity table, "
         "volumes by polynomial identities; general trilinear cells and the "
         "mesh generators are checked bounded." + ENGINE),
    dict(id="P17", title="Every element gets exactly one role; regions touch "
         "what their tags say",
         statement="A task built from nodes, tagged facets or mesh tags "
         "constrains exactly the degrees of freedom of the named Dirichlet "
         "regions in the named directions, loads exactly the named facets, "
         "and splits all elements into designed and fixed ones without "
         "overlap or gap: loaded elements (and convective ones where asked) "
         "are never designed, an empty design region is refused. Look-ups by "
         "nodes return exactly the touching elements of the mesh given, "
         "whatever was looked up before.",
         over=["inputs", "configurations", "histories"],
         forall="all meshes, node sets, region lists (single, several, "
         "overlapping, of different sizes), directions, flags",
         why="The partition decides what an optimizer may change; tests "
         "build one task per kind on a box mesh.",
         files=[R + "mesh/task_common.py", R + "mesh/task_elastic.py",
                R + "mesh/task_heat.py", R + "mesh/utils.py"],
         mech=[("task construction", R + "mesh/task_common.py:40-420"),
               ("elastic tasks", R + "mesh/task_elastic.py:60-420"),
               ("heat tasks", R + "mesh/task_heat.py:60-420"),
               ("look-ups", R + "mesh/utils.py:140-330")],
         note="Set-membership contracts over arbitrary connectivities, "
         "proved; the mesh library (dofs of a node, facets of a tag) is a "
         "contract, exercised for real in the bounded groups." + ENGINE),
    dict(id="P18", title="Each load region receives exactly its force, in its "
         "direction",
         statement="Loads assembled from regions, directions and forces come "
         "out one vector per region in the order given; the i-th acts on the "
         "i-th region only, in its direction only, as a constant traction "
         "whose resultant is exactly the i-th force whatever the region's "
         "size. Lists of different length and directions other than u^1, "
         "u^2, ... are refused, and an elasticity task stores exactly these "
         "loads next to the domain it was built from.",
         over=["inputs"],
         forall="all meshes, facet sets, numbers of regions, directions, "
         "forces",
         why="A load that lands in the wrong place, direction or size "
         "optimizes the wrong structure; tests never add a load up.",
         files=[R + "mesh/task_elastic.py"],
         mech=[("surface loads", R + "mesh/task_elastic.py:10-120"),
               ("task construction", R + "mesh/task_elastic.py:120-420")],
         note="Proved for any number of regions against a contract of the "
         "finite element library's boundary integration, which the bounded "
         "group exercises for real." + ENGINE),
    dict(id="P19", title="Displacements are in equilibrium; compliances and "
         "energies are theirs",
         statement="For every load case the displacement solves the SIMP/RAMP "
         "interpolated elasticity problem of the densities given: constrained "
         "degrees of freedom stay zero, the rest is in equilibrium with that "
         "load, computed by the solver asked for at the tolerance asked for; "
         "load cases solved together equal those solved alone. The compliance "
         "is the work of the load, element energies are half stress times "
         "strain with that element's stiffness (their sum is half the "
         "compliance), the task's own loads are never changed, failures are "
         "reported or answered by the direct solver where allowed.",
         over=["inputs", "configurations", "fault_sequences"],
         forall="all meshes, densities, materials, interpolation laws, loads "
         "(any number), constraints, solver configurations, solver failures",
         why="Every objective and sensitivity is computed from this state; "
         "tests only check that a solve runs.",
         files=[R + "fea/solver_elastic.py", R + "fea/composer.py"],
         mech=[("linear solves", R + "fea/solver_elastic.py:30-145"),
               ("single load", R + "fea/solver_elastic.py:146-240"),
               ("several loads", R + "fea/solver_elastic.py:240-470"),
               ("energies", R + "fea/solver_elastic.py:470-540"),
               ("stiffness", R + "fea/composer.py:47-150"),
               ("model", R + "fea/solver_elastic.py:540-680")],
         note="Proved against contracts of the linear-algebra and finite "
         "element libraries; those are exercised for real in the bounded "
         "group. Known finding: a CG/PETSc solve that does not converge is "
         "returned all the same." + ENGINE),
    dict(id="P25", title="The design gradient is the exact chain rule, "
         "averaged over load cases",
         statement="In every iteration the update rule receives the mean "
         "over load cases of the filter-transposed product of the model "
         "sensitivity and the projection derivative, all evaluated at this "
         "iteration's densities, state fields and schedule values; the "
         "sensitivity belongs to the interpolation model in use and "
         "user-supplied sensitivities are used as given. For elasticity the "
         "result is the derivative of the mean compliance.",
         over=["inputs", "configurations", "histories"],
         forall="all element counts, load-case counts, densities, state "
         "fields, schedules, interpolation models",
         why="A wrong gradient still produces a plausible design; no test "
         "compares it with anything.",
         files=[R + "core/optimizers/common_density.py",
                R + "core/derivatives.py"],
         mech=[("chain rule in the loop",
                R + "core/optimizers/common_density.py:1040-1110"),
               ("model pairing",
                R + "core/optimizers/common_density.py:40-60"),
               ("sensitivities", R + "core/derivatives.py:1-120")],
         note="Chain proved on the driver against contracts of filter, "
         "projection and state solve; the end-to-end derivative is checked "
         "bounded by finite differences." + ENGINE),
    dict(id="P26", title="Temperatures solve the heat problem; objectives "
         "and energies are theirs",
         statement="For every load case the temperature solves conduction "
         "with the SIMP/RAMP conductivity of the densities given plus all "
         "Robin (surface exchange) terms: its own Dirichlet region is at its "
         "own prescribed value, the rest is balanced. The exchange surface "
         "of the design has coefficient h rho^p (1-rho)^q |grad rho| with "
         "nodal densities averaged over the elements of a node; each surface "
         "region uses its own coefficient, ambient temperature or flux on "
         "its own facets. Objective i (T.KT, sum of temperatures, heat "
         "exchange per area, with the average-temperature weight) and the "
         "element energies belong to temperature i; the task's data is not "
         "changed; unknown objectives and mismatched lists are refused.",
         over=["inputs", "configurations"],
         forall="all meshes, densities, materials, interpolation laws, load "
         "cases (any number, same or different regions), exchange regions",
         why="Every heat design is judged by these numbers; tests only "
         "check that an optimization runs.",
         files=[R + "fea/solver_heat.py", R + "mesh/task_heat.py",
                R + "fea/composer.py"],
         mech=[("linear solves", R + "fea/solver_heat.py:27-208"),
               ("state", R + "fea/solver_heat.py:211-267"),
               ("energies, functionals", R + "fea/solver_heat.py:269-640"),
               ("model and objectives", R + "fea/solver_heat.py:641-960"),
               ("surfaces", R + "mesh/task_heat.py:25-140")],
         note="Proved against contracts of the linear-algebra and finite "
         "element libraries (exercised for real in the bounded group); Robin "
         "terms per task in the state unit: 0 to 3. Known finding: a Robin "
         "boundary that follows the design does not. Adjoints and the "
         "derivative of heat objectives are not claimed." + ENGINE),
    dict(id="P21", title="Configurations read back are the configurations "
         "written",
         statement="A configuration written to a results folder and read "
         "back is equal to the one written: same kind, every option, every "
         "schedule (as a schedule) and every solver setting; writing does "
         "not change it. A configuration built from a collection of named "
         "options sets exactly the known ones it names, ignores unknown "
         "names and leaves the rest at the defaults; the solver "
         "configuration derived from it names the chosen solver with the "
         "given settings.",
         over=["inputs", "configurations"],
         forall="all numeric and boolean option values, schedule kinds and "
         "parameters, solver selections",
         why="Runs are reproduced from the written file; no test reads one "
         "back.",
         files=[R + "core/optimizers/common_density.py",
                R + "core/optimizers/oc.py", R + "core/optimizers/logmoc.py"],
         mech=[("configuration files",
                R + "core/optimizers/common_density.py:206-328"),
               ("solver settings", R + "fea/_petsc_compat.py")],
         note="Proved for symbolic option values and schedule parameters, "
         "schedule kinds and solver selections enumerated; the json module "
         "is assumed to keep plain data (checked with real files in the "
         "bounded group)." + ENGINE),
    dict(id="P20", title="Histories record every iteration and survive "
         "their files",
         statement="Recording a value appends exactly one entry - the scalar "
         "itself, or [min, mean, max(, standard deviation)] of an array - "
         "and leaves earlier entries and the array unchanged. In every "
         "iteration each history gets one entry with that iteration's data. "
         "Writing the histories and reading them back gives the same names, "
         "plot kinds, scales, entries and latest values; histories without "
         "entries stay registered. Recording under an unregistered name is "
         "refused, and so is the latest value of an empty history.",
         over=["inputs", "histories"],
         forall="all entry counts, recorded values and arrays, registered "
         "names and plot kinds, iteration counts",
         why="Plots, restarts and the user's judgement of convergence read "
         "these files; tests never look into them.",
         files=[R + "tools/history.py",
                R + "core/optimizers/common_density.py"],
         mech=[("series", R + "tools/history.py:1-120"),
               ("collection and files", R + "tools/history.py:120-420"),
               ("recording in the loop",
                R + "core/optimizers/common_density.py:900-1200")],
         note="Series of symbolic length; files against a contract of "
         "numpy's npz (round trips through real files in the bounded group)."
         + ENGINE),
]
