"""Source of properties.jsonl (run: python3 tools/gen_properties.py). One entry per property."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Component tables follow every history of add, overwrite, remove and rename",
  """After any sequence of adding (one or many, with scalars, lists or time series), overwriting, removing and renaming
  components, every component's static attributes and time series are exactly what a plain record-keeping model predicts:
  given values are stored, everything not given has its default, and nothing belonging to other components changes.
  Renaming a bus or any other component moves its data and all references to it, removing deletes its static row and its series,
  and an addition that clashes with an existing name leaves the existing component as it was unless overwriting was requested.""",
  ["histories", "inputs"],
  "all operation histories up to a depth bound over an alphabet of add/overwrite/remove/rename calls on colliding names, with static, list and time-series arguments",
  "Tests exercise one add or remove at a time on fresh networks; leftovers of an earlier component of the same name, mixed static/series updates and renames after overwrites only appear in longer histories.",
  ["pypsa/networks.py", "pypsa/components/abstract.py", "pypsa/io.py"],
  [("Network.add / remove", "pypsa/networks.py"), ("rename_component_names", "pypsa/components/abstract.py"), ("_import_components_from_df / _import_series_from_df", "pypsa/io.py")],
  [("static / dynamic", "one table of static attributes per component type, one table per time-varying attribute", "pypsa/components/abstract.py")],
  ["n.<components>", "n.<components>_t"])

p("C02", "Changing snapshots or investment periods keeps all time data aligned",
  """After any sequence of changes of the snapshots, the investment periods and the weightings, every time-dependent table and every weighting table
  is indexed by exactly the network's current snapshots (periods): values at snapshots that persist are kept, new snapshots
  receive the attribute's default, and dropped ones disappear. With investment periods the snapshots are all (period, timestep) pairs in order,
  each period inheriting the data of a previously flat time axis, and invalid requests are rejected without changing anything.""",
  ["histories", "inputs"],
  "all histories up to a depth bound of snapshot/period/weighting/component operations over a small alphabet of indexes (overlapping, disjoint, reordered, flat, two-level)",
  "Tests set snapshots once before adding components; re-indexing after components, series and weightings exist depends on the history.",
  ["pypsa/networks.py"],
  [("set_snapshots", "pypsa/networks.py"), ("set_investment_periods", "pypsa/networks.py"), ("snapshot_weightings / investment_period_weightings setters", "pypsa/networks.py")])

p("C03", "Export followed by import reproduces the network in every format",
  """Writing a network to a netCDF file, HDF5 store, CSV folder or Excel workbook and reading it back yields a network with the same
  components and names in the same order, static values and types, time series, snapshots and weightings, investment periods, meta data and
  network-level attributes. This holds for any mix of default and non-default values, custom columns, empty component types, and
  flat or multi-period time axes; exporting never changes the exported network.""",
  ["inputs", "configurations"],
  "all combinations, up to a deviation bound, of network features (component types, attribute kinds, custom columns, index kinds, names, meta) for each of the four formats and export options",
  "Tests round-trip a few example networks in fixed formats and mostly check that no exception is raised; special values and feature combinations are sampled.",
  ["pypsa/io.py", "pypsa/common.py"],
  [("Exporter*/Importer* classes", "pypsa/io.py"), ("_export_to_exporter / _import_from_importer", "pypsa/io.py")])

p("C04", "The last export wins, whatever the target contained before",
  """For any history of exports of different networks to the same target, importing the target returns exactly the network exported last,
  for every format that can overwrite its target; nothing of an earlier export (components, time series, snapshots, meta data, shapes)
  reappears. Importing does not change the target, and importing twice gives the same network.""",
  ["histories"],
  "all sequences up to a length bound of exports of networks from a small alphabet (ordered so that successive networks drop component types, series and meta) into one target, per format",
  "Tests always export into a fresh temporary path, so leftovers of a previous export are never present.",
  ["pypsa/io.py"],
  [("ExporterCSV.remove_static / remove_series / save_series", "pypsa/io.py"), ("ExporterHDF5 / ExporterNetCDF / ExporterExcel", "pypsa/io.py")])

p("C05", "Copies, slices and merges are exact and independent",
  """A copy equals the original, a slice contains exactly the selected buses and snapshots with the components attached only to them,
  and a merge contains the union of two networks with disjoint names; all carry the corresponding static data, time series, weightings and settings unchanged.
  Afterwards, no mutation of one network is observable in the other, and overlapping names or snapshots make a merge fail without changing either network.""",
  ["inputs", "histories"],
  "all bus/snapshot selections of small networks with every component type attached, all pairs of networks from an alphabet, and each single mutation afterwards on either side",
  "Tests copy or slice one example and compare sizes; aliasing and boundary components show only for particular selections and later mutations.",
  ["pypsa/networks.py"],
  [("copy", "pypsa/networks.py"), ("__getitem__", "pypsa/networks.py"), ("merge / __add__", "pypsa/networks.py")])

p("C06", "Network equality detects every single difference",
  """Two networks built by the same calls, or a network and its copy, compare equal, and changing any single static value, series value, component,
  snapshot, weighting, meta entry or network attribute on one of them makes them unequal. Comparison is symmetric and never modifies either side.""",
  ["inputs", "histories"],
  "every single-element mutation (each component type, attribute kind, series cell, index entry, network attribute) of a network featuring every component type, and all ordered pairs of mutants",
  "Tests compare a couple of networks; a comparison that ignores some table or attribute passes them.",
  ["pypsa/networks.py", "pypsa/common.py", "pypsa/components/abstract.py"],
  [("Network.equals / __eq__", "pypsa/networks.py"), ("equals", "pypsa/common.py"), ("Components.__eq__", "pypsa/components/abstract.py")])

p("C07", "Sub-networks are the connected components of the active passive branches",
  """Determining the topology assigns two buses to the same sub-network exactly when a path of active lines and transformers joins them, with every bus and
  every such branch in exactly one sub-network whose carrier is that of its buses.
  The incidence and adjacency matrices list exactly the active branches with the right ends, and the reported cycles form a basis of all
  independent loops of the active branches, including parallel ones; inactive branches, links and the order or type of branches make no difference.""",
  ["inputs", "configurations"],
  "all multigraphs up to a bound of buses and branches, with each branch a line or transformer, either orientation, active or not, under each internal iteration order",
  "Tests use one fixed meshed network; disconnected, parallel, inactive and mixed-type shapes are not covered.",
  ["pypsa/graph.py", "pypsa/networks.py", "pypsa/pf.py"],
  [("adjacency_matrix / incidence_matrix / graph", "pypsa/graph.py"), ("determine_network_topology", "pypsa/networks.py"), ("find_cycles / find_slack_bus", "pypsa/pf.py")])

p("C08", "Linear power flow satisfies Kirchhoff's laws with a single slack",
  """For any grid, the linear power flow balances power at every bus, makes every branch flow equal its angle difference
  (less the transformer phase shift) over its reactance and both branch ends opposite, keeps each island's reference angle at zero, and leaves all injections except those
  at the slack generator at their set values, with links transporting their set power at their efficiency. Results are linear in the injections, independent per snapshot, and unaffected by inactive components.""",
  ["inputs", "configurations"],
  "all small multigraphs of lines and transformers with an alphabet of reactances, phase shifts, slack choices, injections, links, stores, DC and AC carriers and activity flags, for subsets of snapshots",
  "Tests compare a handful of networks with stored results.",
  ["pypsa/pf.py"],
  [("lpf / sub_network_lpf", "pypsa/pf.py"), ("calculate_B_H", "pypsa/pf.py"), ("find_slack_bus / find_bus_controls", "pypsa/pf.py")])

p("C09", "Non-linear power flow solves the AC equations it reports as converged",
  """Whenever the non-linear power flow reports convergence, the reported complex voltages and branch flows satisfy the AC power-flow equations of the given lines, transformers and shunt
  impedances at every bus, and each controlled quantity equals its set point: slack voltage and angle, PV active power and voltage, PQ active and reactive power.
  With distributed slack the imbalance is shared in proportion to the requested weights, and each snapshot and island is solved and reported independently.""",
  ["inputs", "configurations"],
  "all combinations up to a deviation bound of branch kinds (line, transformer models, taps, phase shifts, shunt terms), bus controls, shunts, links, slack modes and snapshots on small grids",
  "Tests compare a few cases with stored results and do not vary tap side, model, control mix, distributed slack and shunts together.",
  ["pypsa/pf.py"],
  [("network_pf_accumulated / sub_network_pf / newton_raphson_sparse", "pypsa/pf.py"), ("calculate_Y / apply_transformer_t_model", "pypsa/pf.py")])

p("C10", "Electrical parameters follow from standard types and nominal values",
  """For every line and transformer, the per-unit impedances used in any calculation equal the documented formulas of its type, length, number of
  parallel systems, nominal voltage or power, and tap position, and user-given values otherwise. Changing an input and recalculating changes the result accordingly,
  and a repeated calculation changes nothing.""",
  ["inputs", "histories"],
  "all standard types and an alphabet of parameters (length, parallel systems, tap positions and sides, nominal voltages), and all short histories of changes and recalculations",
  "Tests check single type examples; stale values after changes and tap side/neutral combinations are not enumerated.",
  ["pypsa/pf.py"],
  [("calculate_dependent_values / apply_line_types / apply_transformer_types", "pypsa/pf.py")])

p("C11", "Sensitivity factors equal the flows of actually perturbed or outaged grids",
  """In every island, the power transfer distribution factors reproduce the linear power flow of any injection pattern, and the branch outage factors
  and the linear contingency analysis reproduce the flows obtained by really removing the outaged branch and
  solving again, for every branch whose loss does not split the island. This holds for any mix and order of lines and transformers, parallel and inactive branches and several islands.""",
  ["inputs", "configurations"],
  "all small connected multigraphs with mixed branch types and orders, every single injection pair, every non-bridge outage",
  "Tests check one grid; ordering mistakes between branch lists only show with mixed types, several islands or inactive branches.",
  ["pypsa/contingency.py", "pypsa/pf.py"],
  [("calculate_PTDF", "pypsa/pf.py"), ("calculate_BODF / network_lpf_contingency", "pypsa/contingency.py")])

p("C12", "Optimal dispatch is feasible and cost-minimal",
  """For every feasible dispatch problem, the optimisation returns a dispatch that satisfies all documented operating limits (availability bounds, set points, ramp limits, energy sums, link
  efficiencies on every port, line limits) and Kirchhoff's laws in every snapshot, and whose
  weighted linear and quadratic cost is the minimum over all such dispatches. Infeasible problems are reported as such, never as optimal.""",
  ["inputs", "configurations"],
  "all combinations up to a deviation bound of component features and time profiles on small networks, each compared with an independently written reference problem",
  "Tests solve a few fixed examples and compare objective values; a wrong or missing constraint is only visible where it binds.",
  ["pypsa/optimization/optimize.py", "pypsa/optimization/constraints.py", "pypsa/optimization/variables.py"],
  [("create_model", "pypsa/optimization/optimize.py"), ("define_operational_constraints_* / define_ramp_limit_constraints / define_nodal_balance_constraints / define_kirchhoff_voltage_constraints", "pypsa/optimization/constraints.py"), ("define_objective", "pypsa/optimization/optimize.py")])

p("C13", "Capacity expansion finds the least-cost capacities within their bounds",
  """With extendable generators, lines, transformers, links, storage units or stores, the optimisation returns capacities within their minimum, maximum and module-size restrictions and a dispatch within these
  capacities whose total of capital and operating cost is minimal over all such choices. Non-extendable capacities keep
  their nominal values, and fixing the optimal capacities and solving again reproduces the same operation cost.""",
  ["inputs", "configurations"],
  "all subsets of extendable assets with an alphabet of bounds, module sizes, set capacities, costs and availability profiles on small networks, against a reference problem",
  "Tests solve fixed expansion examples and compare totals; bounds and modularity per component type are sampled.",
  ["pypsa/optimization/optimize.py", "pypsa/optimization/constraints.py", "pypsa/optimization/abstract.py"],
  [("define_nominal_constraints_for_extendables / define_modular_constraints / define_operational_constraints_for_extendables", "pypsa/optimization/constraints.py"), ("optimize.fix_optimal_capacities", "pypsa/optimization/abstract.py")])

p("C14", "Unit commitment schedules respect all commitment rules at least cost",
  """For committable generators and links, the returned on/off schedule and dispatch satisfy minimum part load, minimum up and down times (including those carried over from before the
  first snapshot), start-up and shut-down ramp limits and transitions, and their total of running, start-up, shut-down and stand-by cost is the minimum over all
  schedules. The reported status, start-up and shut-down series are consistent with each other and with the dispatch.""",
  ["inputs", "configurations"],
  "all combinations up to a deviation bound of commitment parameters and initial up/down times over short demand profiles, against brute-force enumeration of all on/off schedules",
  "Tests check a few schedules; carried-over up/down times, ramp and cost interactions are not enumerated.",
  ["pypsa/optimization/constraints.py", "pypsa/optimization/optimize.py"],
  [("define_operational_constraints_for_committables", "pypsa/optimization/constraints.py"), ("start_up/shut_down/stand_by cost", "pypsa/optimization/optimize.py")])

p("C15", "Stored energy is conserved over time in every storage mode",
  """For every storage unit and store the reported energy level in each snapshot equals the previous level after standing losses, plus charging and inflow, minus discharging and spillage, each with its
  efficiency and the elapsed hours, starting from the initial level or, for cyclic assets, from the final one. With investment periods the start is taken per
  period where so requested and continuously otherwise, set levels and energy bounds are met in each snapshot, and the schedule is the cheapest one possible.""",
  ["inputs", "configurations"],
  "all combinations up to a deviation bound of cyclicity, initial level, losses, efficiencies, inflow, set levels, per-period flags, weightings and activity, against the recurrence and a reference problem",
  "Tests cover a few combinations of cyclic and per-period flags with unit weightings.",
  ["pypsa/optimization/constraints.py"],
  [("define_storage_unit_constraints / define_store_constraints", "pypsa/optimization/constraints.py")])

p("C16", "Multi-period investment counts each asset exactly in the periods it is active",
  """In multi-period planning, an asset can operate only in periods from its build year up to the end of its lifetime, its capital cost is paid in exactly these periods and all costs
  are weighted with the period weights, so that the objective is the minimum of the documented total. Growth limits
  and per-period limits bind in exactly the periods they name, and a single period with unit weights gives the same result as a plain single-period optimisation.""",
  ["inputs", "configurations"],
  "all assignments of build years and lifetimes over an alphabet of periods and weights for each asset type, with and without limits, against a reference problem",
  "Tests solve a few fixed multi-period networks.",
  ["pypsa/optimization/optimize.py", "pypsa/descriptors.py", "pypsa/optimization/global_constraints.py"],
  [("get_active_assets / get_activity_mask", "pypsa/descriptors.py"), ("define_objective", "pypsa/optimization/optimize.py"), ("define_growth_limit", "pypsa/optimization/global_constraints.py")])

p("C17", "Inactive components have no effect on any calculation",
  """Marking components as inactive gives the same results for all others as removing them: same topology, linear and non-linear power flow,
  optimal dispatch, investment, prices and statistics, and inactive components themselves report no operation. This holds for every component type and every subset of inactive components.""",
  ["inputs", "configurations"],
  "every subset up to a bound of inactive components in networks with all component types, for each analysis, compared with the network from which they were removed",
  "Tests set a few components inactive in one example and only in the optimisation.",
  ["pypsa/networks.py", "pypsa/pf.py", "pypsa/optimization/constraints.py", "pypsa/descriptors.py"],
  [("get_active_assets", "pypsa/descriptors.py"), ("active filters in pf", "pypsa/pf.py"), ("activity masks", "pypsa/optimization")])

p("C18", "Global constraints bind exactly the quantity they describe",
  """Each global constraint of any type (primary energy or emissions, operational limit, transmission volume or expansion cost, technology capacity) limits exactly its documented total over
  the carriers, buses, periods and snapshot weightings it names, with the given sense, including stored energy differences, and nothing else. The optimum equals that of the
  problem with just that limit added, and the reported shadow price is the change of the optimum per unit of the limit.""",
  ["inputs", "configurations"],
  "each constraint type with an alphabet of senses, limits, carriers, weightings, storage kinds and periods on small networks, against a reference problem and perturbed limits",
  "Tests cover a handful of limits with unit weights; limits on storage, several carriers or periods are sampled.",
  ["pypsa/optimization/global_constraints.py"],
  [("define_primary_energy_limit / define_operational_limit / define_transmission_* / define_tech_capacity_expansion_limit / define_nominal_constraints_per_bus_carrier", "pypsa/optimization/global_constraints.py")])

p("C19", "Rolling-horizon optimisation stitches windows without gaps or jumps",
  """Rolling-horizon optimisation dispatches every requested snapshot for any horizon and overlap, each window starting from the state (storage levels, ramping levels, commitment status and up/down times)
  that the previous windows left. The stitched result satisfies all operating and intertemporal limits as one trajectory, equals a sequence of
  independent window optimisations handed over by hand, and with one window equals the plain optimisation.""",
  ["histories", "configurations"],
  "all horizon/overlap/length combinations up to a bound for networks with each kind of intertemporal coupling",
  "Tests run a few horizons and mostly check that a solution exists.",
  ["pypsa/optimization/abstract.py", "pypsa/optimization/constraints.py"],
  [("optimize_with_rolling_horizon", "pypsa/optimization/abstract.py"), ("ramp / status / state of charge carry-over", "pypsa/optimization/constraints.py")])

p("C20", "Security-constrained dispatch survives every listed outage",
  """The security-constrained optimisation returns a least-cost dispatch for which, after removing any one of the listed branches and redistributing flows linearly, no line or transformer exceeds its capacity, including extendable capacities.
  The optimum equals that of a reference problem that models every outage explicitly, and with no outage listed it equals the plain optimum.""",
  ["inputs", "fault_sequences"],
  "all sets of single outages on small meshed grids with mixed branch types, limits and several islands",
  "Tests check one network with a few outages.",
  ["pypsa/optimization/abstract.py", "pypsa/contingency.py"],
  [("optimize_security_constrained", "pypsa/optimization/abstract.py"), ("calculate_BODF", "pypsa/contingency.py")])

p("C21", "Reported prices and shadow prices are derivatives of the optimal cost",
  """The marginal price reported at each bus and snapshot is the change of the minimal cost per unit of additional demand there per unit of snapshot weight, and each reported shadow price of a limit lies
  between the one-sided changes of the minimal cost per unit of that limit. Assets run only where the price covers their marginal cost, and the shadow prices are assigned to the right component, bus and snapshot.""",
  ["inputs", "configurations"],
  "all small networks of an alphabet, every bus/snapshot and every component limit perturbed up and down",
  "Tests compare prices of a few fixed examples.",
  ["pypsa/optimization/optimize.py"],
  [("assign_duals", "pypsa/optimization/optimize.py")])

p("C22", "Solving writes consistent results and never alters inputs",
  """After a successful optimisation all reported outputs are mutually consistent: injections sum to each bus balance, branch ends match flows and losses, every link port carries its efficiency times the input,
  optimal capacities and the objective agree with the dispatch. All inputs, and all results of snapshots that were not optimised, stay unchanged, and an infeasible, failing or repeated solve never corrupts inputs or alters later results.""",
  ["histories", "configurations"],
  "all short histories of optimise calls over snapshot subsets, feasible and infeasible data changes, and helper calls on networks with every component type",
  "Tests solve once and look at few outputs; partial snapshot sets and repeated solves are sampled.",
  ["pypsa/optimization/optimize.py", "pypsa/optimization/abstract.py"],
  [("assign_solution / post_processing", "pypsa/optimization/optimize.py")])

p("C23", "A constant time series means the same as a static value",
  """For every attribute that may vary in time, giving a constant series instead of the equal static value, for one, some or all components, leads to identical results in
  optimisation, power flow, statistics and dense views; conversely the series takes precedence over the static value wherever both exist. (Set points of generators, links, stores and storage
  units fix the optimal operation only when given as series, as documented; for them the equivalence is claimed for dense views and power flow.)""",
  ["inputs", "configurations"],
  "every time-varying input attribute of every component type, as static/series/mixed over components, in each analysis and for snapshot subsets",
  "Tests give each attribute in one form only.",
  ["pypsa/descriptors.py", "pypsa/optimization/constraints.py", "pypsa/pf.py"],
  [("get_switchable_as_dense / allocate_series_dataframes", "pypsa/descriptors.py")])

p("C24", "Statistics agree with the network's own results",
  """For a solved network the statistics reproduce the solution: capital plus operating expenditure add up to the objective, energy balances of each bus carrier sum to zero, supply minus withdrawal is the energy balance,
  capacities are the optimal and installed ones, and capacity factor, curtailment, revenue and market value follow their definitions. Grouping, filtering and aggregation only regroup: totals over any
  grouping by carrier, bus, bus carrier or name agree with each other and with the ungrouped values.""",
  ["inputs", "configurations"],
  "all statistics x groupings x ports x filters x time aggregations on solved networks with every component type, flat and multi-period, against direct summation",
  "Tests check shapes and a few values.",
  ["pypsa/statistics/expressions.py", "pypsa/statistics/abstract.py", "pypsa/statistics/grouping.py"],
  [("StatisticsAccessor methods", "pypsa/statistics/expressions.py"), ("_aggregate_components / filters", "pypsa/statistics/abstract.py"), ("groupers", "pypsa/statistics/grouping.py")])

p("C25", "Spatial clustering conserves what it aggregates",
  """For any assignment of buses to clusters, the clustered network has exactly one bus per cluster, every component attached to the cluster of its original bus, unchanged totals of demand, generation and storage capacity and
  availability-weighted potential per cluster, carrier and snapshot, and between two clusters one line with the summed capacity and electrically equivalent impedance of the lines it replaces.
  Lines and links inside a cluster vanish, the original network is untouched, and the identity assignment reproduces the network.""",
  ["inputs", "configurations"],
  "all partitions of the buses of small networks with all component types, static and time-varying attributes, and the aggregation options",
  "Tests cluster examples and check few totals.",
  ["pypsa/clustering/spatial.py"],
  [("get_clustering_from_busmap / aggregateoneport / aggregatelines / aggregatebuses", "pypsa/clustering/spatial.py")])

p("C26", "The consistency check reports every seeded inconsistency and no sound network",
  """Checking a sound network in strict mode never fails, and for each documented inconsistency (unknown or disconnected bus or carrier, zero impedance or capacity, misaligned or missing series, wrong bounds,
  invalid period data, wrong types, missing values) introduced anywhere into it, strict mode fails and the normal mode reports it without raising.
  The check never modifies the network.""",
  ["inputs"],
  "each documented kind of inconsistency at each component type and attribute it applies to, alone and in pairs",
  "Tests cover each kind at one component.",
  ["pypsa/consistency.py"],
  [("consistency_check and check_* functions", "pypsa/consistency.py")])

p("C27", "Options changed in a scope are always restored",
  """For any nesting of option scopes and direct changes, reading an option returns the most recently set value in effect, and leaving a scope, also through an error, restores the values from before it.
  Resetting restores the documented defaults, and unknown options are rejected without changing any other.""",
  ["histories", "fault_sequences"],
  "all well-nested histories up to a depth bound of set/get/reset/enter/leave/raise over a few options, against a stack model",
  "Tests check single scopes.",
  ["pypsa/_options.py"],
  [("OptionsNode / option_context", "pypsa/_options.py")])

p("C28", "Results do not depend on naming, ordering or hash order",
  """Renaming components, adding them in a different order, swapping a branch's direction or running with a different internal hash order permutes or negates the results accordingly but changes nothing else,
  in topology, power flow, sensitivity factors, optimisation and clustering.""",
  ["inputs", "configurations"],
  "all permutations of component insertion, all name orders, all branch orientations and all internal set iteration orders of small networks, per analysis",
  "Tests use one order, one naming and whichever hash order the process happens to get.",
  ["pypsa/graph.py", "pypsa/pf.py", "pypsa/contingency.py", "pypsa/optimization"],
  [("concatenation over sets of component types", "pypsa/graph.py, pypsa/pf.py, pypsa/contingency.py"), ("index alignment in constraints", "pypsa/optimization/constraints.py")])

p("C29", "Transmission losses are a faithful tangent approximation",
  """With transmission losses enabled, each line and transformer loses at least the largest of its tangent segments of the quadratic loss curve, never more than the loss at full loading, and its two ends differ by exactly
  the loss, with power balanced at every bus. The optimum equals that of a reference problem with the same tangents, for fixed and extendable
  branches, and without losses the results equal the lossless model.""",
  ["inputs", "configurations"],
  "all combinations of tangent numbers, branch types, resistances, loading directions and extendability on small grids",
  "Tests check that losses are positive for one example.",
  ["pypsa/optimization/constraints.py", "pypsa/optimization/optimize.py"],
  [("define_loss_constraints", "pypsa/optimization/constraints.py"), ("losses in nodal balance and post_processing", "pypsa/optimization")])

p("C30", "Near-optimal alternatives stay within budget and optimise their direction",
  """Exploring near-optimal alternatives yields, for each direction, a feasible system whose total cost stays within the allowed slack above the optimum and whose requested combination of capacities
  or dispatch is extremal among all such systems. Inputs and the cost data of the network are left unchanged.""",
  ["inputs", "configurations"],
  "all weight directions of an alphabet x slack levels x senses on small expansion problems, against a reference problem",
  "Tests run a few directions and check the sign of the effect.",
  ["pypsa/optimization/abstract.py"],
  [("optimize_mga", "pypsa/optimization/abstract.py")])

p("C31", "Expansion helper routines leave the network as documented",
  """Rounding optimal capacities to discrete units picks the documented multiple, iterating transmission expansion ends with impedances consistent with the optimised capacities,
  fixing capacities or dispatch pins exactly the optimised values, and load shedding adds exactly one generator per bus whose use makes every dispatch feasible. Everything else in the network is as before the call.""",
  ["inputs", "configurations", "histories"],
  "all arguments of an alphabet for each helper, and all short sequences of helpers, on small networks",
  "Tests call each helper once.",
  ["pypsa/optimization/abstract.py"],
  [("discretized_capacity / optimize_transmission_expansion_iteratively", "pypsa/optimization/abstract.py"), ("fix_optimal_capacities / fix_optimal_dispatch / add_load_shedding", "pypsa/optimization/abstract.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
