"""The properties: one source for properties.jsonl, MANIFEST.json and the checks."""

COMMON_ASSUMPTIONS = [
    "floating-point arithmetic is modelled by exact real arithmetic; comparisons carry a relative tolerance of 1e-6 "
    "unless stated, so rounding alone never decides a verdict",
    "numpy containers hold symbolic numbers as objects; the numpy routines that reach LAPACK are replaced by their contract",
]

PROPS = {}
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, modules, assumptions=(), note=""):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over.split(","), text=text, why=why,
                     files=files, mech=mech, modules=modules, assumptions=list(assumptions), note=note)


S = "metku/sections/steel/"

P("S01", "Hollow section geometry and updates",
  "For every size, a rectangular or circular hollow section reports the area, perimeter, shear areas, second moments, "
  "elastic and plastic moduli, torsion constant and corner radius of its exact outline with rounded corners. "
  "After any sequence of size changes every reported quantity is the one of a section built directly with the final sizes.",
  "inputs,histories", "all sizes, wall thicknesses and orders of size changes within the bounds",
  "Tests compare a handful of catalogue sizes after construction and change one size at a time.",
  [S + "RHS.py", S + "CHS.py", S + "steel_section.py"],
  [("cross-section formulas", S + "RHS.py: RHS.cross_section_properties"), ("size setters", S + "RHS.py, CHS.py: property setters")],
  ["sections"])

P("S02", "I-section and welded section geometry and updates",
  "For every size, rolled, welded and box-flange (WQ) I-type sections report the area, perimeter, centroid, second moments, elastic "
  "and plastic moduli, shear area, torsion and warping constants of their plates and fillets, and rolled sections the "
  "Eurocode buckling curves for their proportions and grade. The plastic neutral axis halves the area. "
  "Changing sizes in any order leaves the same quantities as building the final section directly.",
  "inputs,histories", "all plate sizes, fillet radii, grades and orders of size changes within the bounds",
  "Tests check a few catalogue sections and doubly symmetric welded beams; mono-symmetric sizes and update orders are not reached.",
  [S + "ISection.py", S + "wi.py", S + "wq.py", S + "profile_data.py"],
  [("rolled section properties", S + "ISection.py: cross_section_properties"), ("welded section", S + "wi.py: WISection"),
   ("WQ section", S + "wq.py: WQSection")],
  ["sections"])

P("S03", "Cross-section classification",
  "For every width-to-thickness ratio, yield strength and load (compression, tension, bending of either sign, both), the section "
  "class is the one of EN 1993-1-1 Table 5.2 for the most slender compressed part. "
  "Sections in tension or without load are class 1.",
  "inputs", "all plate slendernesses, yield strengths, axial forces and moments within the bounds",
  "Tests classify a few sections; class limits depend on ratios and load combinations that are only sampled.",
  ["metku/eurocodes/en1993/en1993_1_1.py", S + "steel_section.py", S + "RHS.py", S + "CHS.py", S + "ISection.py", S + "wi.py"],
  [("class limits", "metku/eurocodes/en1993/en1993_1_1.py"), ("choice of parts", S + "steel_section.py: section_class")],
  ["sections"])

P("S04", "Cross-section resistances and utilisation",
  "For every section and load, axial, bending and shear resistances about both axes are modulus or area times yield strength for the "
  "class (shear divided by the square root of three), and the utilisation ratios are force over resistance, combined bending "
  "and axial force reducing the moment resistance monotonically between the full value and zero. The reported maximum is the "
  "largest of them; rotating a section swaps its axes and nothing else.",
  "inputs", "all section sizes, grades, force combinations and rotations within the bounds",
  "Tests evaluate single load combinations on a few profiles.",
  [S + "steel_section.py", S + "RHS.py", S + "CHS.py", S + "ISection.py", S + "wi.py"],
  [("resistances", S + "steel_section.py: bending_resistance, shear_force_resistance"),
   ("utilisation", S + "steel_section.py: section_resistance"), ("axis swap", S + "steel_section.py: rotate")],
  ["sections"])

P("E01", "Member reduction factors and basic resistances",
  "For every slenderness the flexural and lateral-torsional reduction factors lie in (0, 1], equal 1 up to the plateau, never increase "
  "with slenderness and satisfy the EN 1993-1-1 buckling curve of their imperfection factor; worse curves never give larger factors. "
  "Basic resistances are area or modulus times yield strength over the partial factor, and moments are amplified for sway only above the limit.",
  "inputs", "all slendernesses, curves, areas and strengths within the bounds",
  "Tests evaluate a few slendernesses on one curve.",
  ["metku/eurocodes/en1993/en1993_1_1.py"],
  [("reduction factor", "metku/eurocodes/en1993/en1993_1_1.py: buckling_reduction_factor"), ("basic resistances", "same file")],
  ["ec3_member"])

P("E03", "Beam-column interaction and equivalent moment factors",
  "For every utilisation, slenderness, section class and moment shape, the equivalent moment factors and interaction factors are those of "
  "EN 1993-1-1 Annex B, and the two interaction ratios combine axial force and both moments with them. "
  "The factors are defined for every moment diagram, including zero end or span moments.",
  "inputs", "all utilisations, slendernesses, classes and moment diagrams within the bounds",
  "Tests exercise one or two diagrams; the table has many branches by class and by moment shape.",
  ["metku/eurocodes/en1993/en1993_1_1.py"],
  [("interaction factors", "metku/eurocodes/en1993/en1993_1_1.py: kyy, kzz, kyz, kzy"), ("equivalent moment factors", "same file: equivalent_moment_factor")],
  ["ec3_member"])

SM = "metku/structures/steel/steel_member.py"
P("E02", "Critical loads and buckling resistances of steel members",
  "For every section, length and buckling length, Euler and torsional critical loads, slendernesses, elastic critical moments (symmetric, "
  "mono-symmetric and cantilever, any load position) and the resulting flexural, torsional and lateral-torsional buckling resistances "
  "are those of EN 1993-1-1 and NCCI formulas. Resistances lie between zero and the section resistance, never exceed the elastic "
  "critical load, and loads on the top flange are never better than on the bottom flange.",
  "inputs", "all section properties, lengths, buckling length factors, imperfection factors and moments within the bounds",
  "Tests evaluate a few catalogue members; slenderness ranges and load positions are sampled.",
  [SM, "metku/sections/steel/steel_section.py"],
  [("critical loads", SM + ": ncrit, ncrit_T, mcrit, mcrit_cantilever"),
   ("buckling resistances", SM + ": buckling_strength, torsional_buckling_strength, LT_buckling_strength")],
  ["member"])

P("M01", "Steel member design is the worst of all its checks",
  "For every set of member sections and forces, the buckling check uses the largest compression, the beam-column check the interaction "
  "formulas with the largest moment, and the design utilisation is the largest of the section, buckling, lateral-torsional and "
  "beam-column ratios. The result does not depend on the order in which sections are given, nor on earlier loads or designs of the same member.",
  "inputs,histories", "all forces in the member sections, their order and earlier designs within the bounds",
  "Tests design single members with one set of forces.",
  [SM], [("buckling check", SM + ": check_buckling"), ("beam-column check", SM + ": check_beamcolumn"), ("design", SM + ": design")],
  ["member"])

FE = "metku/framefem/"

P("F01", "Stiffness of finite elements",
  "For every section, material, length and direction, the stiffness matrix of a beam, rod, spring, semi-rigid or space beam element gives "
  "the end forces of Euler-Bernoulli beam theory for any end displacement, with released or flexible joints transmitting exactly their "
  "moment, and follows later changes of hinges and sections. Geometric stiffness is the work of the axial force on the same "
  "shape, second order stiffness keeps rigid body equilibrium.",
  "inputs,histories", "all stiffnesses, joint stiffnesses, lengths, axial forces and changes of hinges and sections within the bounds",
  "Tests solve one or two frames and look at no element matrix.",
  [FE + "framefem.py", FE + "elements/ebbeam.py", FE + "elements/rod.py", FE + "elements/springs.py", FE + "elements/eb_semi_rigid_beam.py"],
  [("beam stiffness", FE + "elements/ebbeam.py: EBBeam.local_stiffness_matrix, EBBeam3D"), ("rods and springs", FE + "elements/rod.py, springs.py"),
   ("semi-rigid", FE + "elements/eb_semi_rigid_beam.py")],
  ["fem"])

P("F02", "Equivalent nodal loads",
  "For every linearly varying line load in global or local axes on an element of any direction, with hinged, flexible or rigid "
  "joints, the nodal loads are the opposite of the support forces of the clamped beam, so force and moment resultants are kept. "
  "The scaling factor multiplies the load once; point loads act on the free degrees of freedom of their node.",
  "inputs", "all load values, factors, lengths and joint stiffnesses within the bounds",
  "Tests use vertical uniform loads on horizontal members with unit factor.",
  [FE + "framefem.py", FE + "elements/ebbeam.py", FE + "elements/eb_semi_rigid_beam.py"],
  [("line loads", FE + "elements/ebbeam.py: equivalent_nodal_loads"), ("loads", FE + "framefem.py: PointLoad, LineLoad")],
  ["fem"])

P("F03", "Linear static and buckling analysis of frames and trusses",
  "For every load, linear statics of a frame of beams, hinged and semi-rigid beams, rods and springs returns displacements that vanish "
  "at the supports, end forces that follow from the displacements and element loads by beam theory, and nodes in equilibrium with the "
  "applied loads, with either way of imposing supports. Buckling analysis solves the stiffness and geometric stiffness of "
  "that loaded frame and gives each mode value to its own node.",
  "inputs", "all line and point loads within the bounds on eight structures and one space frame",
  "Tests solve single load arrangements; equilibrium for every load, hinge and element kind is not tested.",
  [FE + "framefem.py", FE + "elements/ebbeam.py", FE + "elements/rod.py", FE + "elements/springs.py", FE + "elements/eb_semi_rigid_beam.py"],
  [("static analysis", FE + "framefem.py: linear_statics"), ("end forces", FE + "elements: internal_forces"),
   ("buckling", FE + "framefem.py: linear_buckling")],
  ["fem"],
  ["the sparse eigenvalue solver (ARPACK) is replaced by an arbitrary answer; the matrices given to it are checked"])

P("F04", "Analyses do not affect each other",
  "For every pair of load cases, the results of one are the same whether it is analysed alone, after another or together with others, and "
  "an analysis after loads were added or removed, hinges moved or sections changed equals that of a model built anew. "
  "Both ways of imposing supports give the same displacements and forces.",
  "inputs,histories", "all loads within the bounds, over the listed histories of analyses and changes",
  "Tests run a single analysis per model.",
  [FE + "framefem.py", FE + "elements/ebbeam.py"],
  [("load cases", FE + "framefem.py: linear_statics, global_load_vector"), ("element state", FE + "elements/ebbeam.py")],
  ["fem"])

EC = "metku/eurocodes/en1993/"
P("E04", "Steel at elevated temperatures",
  "For every temperature, the reduction factors of carbon steel, stainless steel 1.4301 and bolts interpolate the EN 1993-1-2 tables "
  "and never grow with temperature for carbon steel; the stress-strain curve is the standard one with or without hardening; thermal "
  "elongation, conductivity and specific heat follow the code. Unprotected steel is heated in every step by the net heat flux divided by "
  "its heat capacity, and heat always flows from the hotter side.",
  "inputs", "all temperatures, strains, section factors, emissivities and times within the bounds",
  "No test covers the fire module.",
  [EC + "en1993_1_2.py"],
  [("reduction factors", EC + "en1993_1_2.py: reduce_property"), ("stress-strain curve", EC + "en1993_1_2.py: stress"),
   ("heating", EC + "en1993_1_2.py: steel_temp, hnet")],
  ["fire"])

P("E05", "Plated structures",
  "For every stress ratio, slenderness and plate size, buckling factors, reduction factors, effective widths, shear buckling and "
  "transverse force resistances are those of EN 1993-1-5: reduction factors lie in (0, 1], no plate gets more effective than whole, and "
  "slenderer plates never get a larger factor. Welded I-sections apply them to their own plates: "
  "effective area in compression and shear buckling resistance with both contributions and its cap.",
  "inputs", "all plate widths, thicknesses, stress ratios, stiffener spacings and bearing lengths within the bounds",
  "Tests compare a few welded sections with worked examples.",
  [EC + "en1993_1_5.py", S + "wi.py"],
  [("plate buckling", EC + "en1993_1_5.py"), ("effective welded section", S + "wi.py: effective_web, effective_flange, Aeff"),
   ("shear buckling", S + "wi.py: shear_buckling_resistance")],
  ["plates"])

P("E06", "Welded joints of rectangular hollow sections",
  "For every chord, brace, angle, gap and load, K gap, Y and X joints report the chord face, chord shear, side wall, brace and punching "
  "shear resistances of EN 1993-1-8 chapter 7 with chord stress function, high strength reduction and effective widths. "
  "The design utilisation is the force over the smallest relevant resistance, compressed and stretched braces are told "
  "apart, and the intersection and distance of lines are exact.",
  "inputs", "all brace sizes, angles, gaps and forces within the bounds, on four chords",
  "No test covers the joint rules.",
  [EC + "en1993_1_8/rhs_joints.py"],
  [("K gap joints", EC + "en1993_1_8/rhs_joints.py: RHSKGapJoint"), ("Y and X joints", EC + "en1993_1_8/rhs_joints.py: RHSYJoint, RHSXJoint"),
   ("lines", EC + "en1993_1_8/rhs_joints.py: Line")],
  ["joints"])

P("E07", "Bolts and basic components of steel connections",
  "For every bolt size and class, plate, spacing and force, shear, tension, bearing, punching and block tearing resistances, the shear "
  "and tension interaction, full strength welds and the web, flange and plate components (resistance and stiffness) are those of EN 1993-1-8: shear through the "
  "thread uses the class's own factor, bearing is limited by every edge and bolt distance, and the shear interaction factor of the column web never exceeds one.",
  "inputs", "all dimensions, distances, forces and strengths within the bounds, for every bolt size and class, on four columns",
  "No test covers the connection rules.",
  [EC + "en1993_1_8/en1993_1_8.py", EC + "en1993_1_8/component_method.py"],
  [("bolts", EC + "en1993_1_8/en1993_1_8.py: Bolt, bolt_shear_resistance, bolt_bearing_resistance"),
   ("components", EC + "en1993_1_8/component_method.py")],
  ["bolts"])

ST = "metku/structures/steel/"
P("E08", "End plate joints",
  "For every plate, bolt, weld and position within the bounds, each bolt row of an end plate joint resists what its weakest component gives in the three "
  "T-stub modes, rows and groups together never exceed their group, the bolts or the compression side, shear rows give no moment, and the moment resistance is the sum "
  "of row forces times lever arms. The initial stiffness assembles all components of EN 1993-1-8 6.3, and column stiffeners add the resistance of the code.",
  "inputs", "all plate thicknesses, edge distances, bolt positions, welds and transformation parameters within the bounds, three column and beam pairs",
  "No test covers the joint.",
  [ST + "end_plate_joint.py", EC + "en1993_1_8/en1993_1_8.py", EC + "en1993_1_8/component_method.py"],
  [("rows and T-stubs", EC + "en1993_1_8/en1993_1_8.py: BoltRow, BoltRowGroup, TStub"), ("joint", ST + "end_plate_joint.py: EndPlateJoint")],
  ["endplate"])

E1 = "metku/eurocodes/en1991/"
P("E09", "Load combinations of EN 1990",
  "For every set of permanent, snow, wind and live loads within the bounds, of either sign and on any part and direction, the ultimate, characteristic, frequent, "
  "quasi-permanent and accidental combiners return the line loads of a combination with the largest total among those of EN 1990 (every variable load leading in turn, "
  "partial and combination factors of category and consequence class). Split results add up to the whole and the given loads are left unchanged.",
  "inputs", "all load values within the bounds, up to four loads of every kind",
  "No test covers load combination.",
  [E1 + "en1991.py"],
  [("combiners", E1 + "en1991.py: ULSCombiner, SLSCombiner, ACCCombiner, MultiCombiner")],
  ["loads"])

P("E10", "Wind loads of EN 1991-1-4",
  "For every height, terrain, building size and roof slope within the bounds, roughness, turbulence and peak pressure follow the code and pressure never falls with height. "
  "Wall and flat roof zones cover the building exactly and carry the tabulated coefficients, linearly interpolated between the slopes and height ratios of the tables.",
  "inputs", "all heights, building sizes, pressures and roof slopes within the bounds",
  "No test covers wind loads.",
  [E1 + "en1991_1_4.py"],
  [("peak pressure", E1 + "en1991_1_4.py: peak_velocity_pressure"), ("zones", E1 + "en1991_1_4.py: rect_building_wall_pressure, flat_roof_pressure"),
   ("roof slopes", E1 + "en1991_1_4.py: ExternalPressureMonoRoof")],
  ["loads"])

OP = "metku/optimization/"
P("O01", "Design variables reach their targets",
  "For every value, substituting a design variable sets exactly its target properties on every target object, times its scaling and through its target function. "
  "A locked variable and its targets never change, index and binary variables select the entry of their catalogue, substituted values are clamped to the bounds, "
  "the starting point is remembered, and random values are allowed values.",
  "inputs", "all values, bounds, scalings and random numbers within the bounds, for every kind of variable and subset of locked ones",
  "No test covers design variables.",
  [OP + "variables.py", OP + "structopt.py"],
  [("variables", OP + "variables.py"), ("problem", OP + "structopt.py: OptimizationProblem.substitute_variables, random_values")],
  ["optim"])

P("O02", "Objective and constraints are evaluated for the whole current design",
  "For every design and every subset of locked variables, the objective and each constraint see the full design vector with the free and the fixed values in place, "
  "maximised objectives and negated constraints have the opposite sign, and where structural analysis is required the response is that of the design being evaluated, "
  "whatever was evaluated before.",
  "inputs", "all designs, coefficients and bounds within the bounds, sequences of evaluations at two designs",
  "No test covers the evaluation of optimization problems.",
  [OP + "objective.py", OP + "constraints.py", OP + "structopt.py"],
  [("objective", OP + "objective.py: ObjectiveFunction.__call__"), ("constraints", OP + "constraints.py")],
  ["optim"])

P("O03", "Feasibility and the best design",
  "A design is feasible exactly when every constraint holds by its own type within the tolerance. For every sequence of steps a solver takes, iterates stay within the variable bounds, "
  "the recorded history is that of the iterates, and the result is the best feasible iterate: feasible, never worse than another feasible iterate, and reported as not found only when none was feasible.",
  "inputs", "all constraint values, steps and starting points within the bounds, up to three steps",
  "No test covers the solvers.",
  [OP + "structopt.py", OP + "solvers/optsolver.py"],
  [("feasibility", OP + "structopt.py: OptimizationProblem.feasible"), ("iteration", OP + "solvers/optsolver.py: OptSolver.solve")],
  ["optim"])

P("O04", "Penalty, barrier and Lagrangian functions",
  "For every constraint type, value, bound and factor, the exact penalty is the weighted sum of violations (never negative, zero exactly when feasible), the exterior penalty adds their squares, "
  "the barrier follows its definition inside the feasible set, and the augmented Lagrangian and its multiplier updates are those of the method, with multipliers of inequalities never negative.",
  "inputs", "all constraint values, points, factors and multipliers within the bounds",
  "No test covers penalty functions.",
  [OP + "structopt.py"],
  [("penalties", OP + "structopt.py: exact_penalty_fun, exterior_penalty_fun, barrier_fun"), ("Lagrangian", OP + "structopt.py: augmented_lagrangian, update_lag_mult")],
  ["optim"])

P("O05", "Approximations agree with the functions they approximate",
  "For every point within the bounds, linearised, convex-linear and MMA approximations have the value and slope of the original functions at that point for the free variables, "
  "also with locked variables and variable right hand sides. Building them leaves the design and the original problem as they were, and subproblem bounds stay between the asymptotes and the variable bounds.",
  "inputs", "all points, coefficients, gradients and asymptotes within the bounds",
  "No test covers approximations.",
  [OP + "structopt.py", OP + "opt_functions.py"],
  [("linearisation", OP + "structopt.py: OptimizationProblem.linearize"), ("approximations", OP + "opt_functions.py: conlin_fun, mma_fun, MMAFunction, NumGrad")],
  ["optim"])

P("O06", "Discrete variables and branch and bound",
  "For every value, discrete variables tell exactly whether it is allowed, how far from allowed it is and which allowed values lie next to it; neighbourhoods hold the nearest allowed values. "
  "Bounds tightening never removes a feasible point, branching keeps every discrete design in one branch and the relaxed solution in none, and branch and bound with any valid relaxation "
  "returns a feasible design whose objective no feasible design improves, with the variables' bounds restored.",
  "inputs", "all values, coefficients, objectives, feasible sets and relaxations within the bounds, up to four values or two variables",
  "No test covers discrete optimization.",
  [OP + "variables.py", OP + "structopt.py", OP + "solvers/bnb.py"],
  [("discrete variables", OP + "variables.py: IntegerVariable, DiscreteVariable"), ("branch and bound", OP + "solvers/bnb.py: BnB")],
  ["solvers"])

P("O07", "Subproblems handed to solvers are the problem",
  "For every problem within the bounds, the linear, sequential linear, mixed-integer and scipy solvers hand over exactly the free variables with their bounds and move limits, every constraint with its own type "
  "(locked variables on the right hand side), and the objective with its sense. Their answer is returned unchanged, failure is reported as infeasible, and discrete variables take catalogue values.",
  "inputs", "all coefficients, points and solver answers within the bounds, three variables and two constraints",
  "No test covers the solvers.",
  [OP + "solvers/lp.py", OP + "solvers/slp.py", OP + "solvers/mislp.py", OP + "solvers/slsqp.py", OP + "solvers/trust_region.py"],
  [("linear programs", OP + "solvers/lp.py: LP.solve"), ("sequential", OP + "solvers/slp.py: SLP.take_action"), ("mixed integer", OP + "solvers/mislp.py: MISLP.take_action"),
   ("scipy", OP + "solvers/slsqp.py: SLSQP.solve")],
  ["solvers"])

P("O08", "Population based solvers",
  "For every sequence of random numbers, particles stay within the variable bounds at allowed values and within the velocity limits, and personal and global bests are the best feasible designs visited "
  "(or the least infeasible). Genetic fitness is the objective plus the penalty of every violated constraint by its type, and the best individual is the one of smallest fitness.",
  "inputs", "all random numbers, objective and constraint values within the bounds, swarms of two and three individuals",
  "No test covers population based solvers.",
  [OP + "solvers/pso.py", OP + "solvers/ga.py"],
  [("swarm", OP + "solvers/pso.py: PSO, Particle"), ("genetic", OP + "solvers/ga.py: GA.eval_individual")],
  ["solvers"])

P("R01", "Frame models are analysed as given",
  "For every load on the members and nodes of a frame, the displacements and internal forces reported for its members solve the frame: every element follows beam theory, every node is in equilibrium with "
  "all loads of that case exactly once, supports hold exactly their directions and hinged ends carry no moment, however many elements the members have, for every load case, also when loads share a name or the model is built again.",
  "inputs", "all load values within the bounds, seven frames and trusses, one to three elements per member",
  "No test covers raami frames with more than sample loads.",
  ["metku/raami/raami.py", "metku/raami/frame_member.py", "metku/raami/frame_loads.py", "metku/raami/frame_supports.py"],
  [("model", "metku/raami/raami.py: Raami.generate_fem, Raami.structural_analysis"), ("members", "metku/raami/frame_member.py: FrameMember.generate_elements, calc_nodal_forces, calc_nodal_displacements"),
   ("loads", "metku/raami/frame_loads.py: LineLoad, PWLineLoad, PointLoad")],
  ["raami"])

P("R02", "Load combinations",
  "For every set of load cases, the forces and displacements of a load combination are the sum of those of its cases times their combination factors (EN 1990: permanent 1.15, leading variable 1.5, the others 1.5 times psi0; "
  "1.0 and psi0 in serviceability), the first variable case leading and each load keeping its own scaling factor. Combining again after loads changed uses the present loads once, and combinations do not disturb each other or their cases.",
  "inputs", "all load values within the bounds, up to four cases of any order and type",
  "No test covers load combinations.",
  ["metku/raami/frame_loads.py", "metku/raami/raami.py"],
  [("combination", "metku/raami/frame_loads.py: LoadCombination.combine_loads, Load.factored"), ("registration", "metku/raami/raami.py: Raami.add_loadcase, add_loadcombination, add_lineload")],
  ["raami"])

P("R03", "Self-weight of frames",
  "For every frame, the supports carry in the self-weight case exactly the weight of the members (area, length, density and gravity) once, whether self-weight is added once or repeatedly, after removal and "
  "after the sections changed, and without it there is none; other load cases are unaffected.",
  "inputs", "all loads and section sizes within the bounds",
  "No test covers self-weight.",
  ["metku/raami/raami.py", "metku/raami/frame_member.py"],
  [("self-weight", "metku/raami/raami.py: Raami.add_self_weight, remove_self_weight; metku/raami/frame_member.py: FrameMember.add_self_weight")],
  ["raami"])

P("R04", "Geometry of frames follows the nodes",
  "For every position of the nodes, lengths, weights, directions, coordinates along members and ranges of a frame are those of the straight lines between its nodes; when a node moves, every connected member, its design member "
  "and all its finite element nodes follow, so that the analysis is that of the moved frame, also when nodes were given in whole numbers. Symmetric nodes and members are found for every symmetric frame and symmetric members share their profile.",
  "inputs", "all node positions within the bounds, loads as in R01",
  "No test covers moving nodes.",
  ["metku/raami/frame_node.py", "metku/raami/frame_member.py", "metku/raami/raami.py"],
  [("nodes", "metku/raami/frame_node.py: FrameNode"), ("members", "metku/raami/frame_member.py: FrameMember.recalculate_coordinates, local_to_global, global_to_local"), ("symmetry", "metku/raami/raami.py: Raami.symmetry")],
  ["raami"])

P("R05", "Design of frame members",
  "For every set of forces, the design forces of a member are its largest absolute values with their sign, the reported extremes bound the forces of all load cases and belong to one section of one case, and the utilization in every load case is that of a "
  "steel member of the same profile, length and buckling lengths under the forces of that case, whatever was designed before; the resistance check compares it with the allowable utilization.",
  "inputs", "all forces within the bounds, two load cases, up to three sections",
  "No test covers design over several load cases.",
  ["metku/raami/frame_member.py", "metku/raami/raami.py"],
  [("forces", "metku/raami/frame_member.py: FrameMember.calc_nodal_forces, get_max_forces"), ("design", "metku/raami/frame_member.py: SteelFrameMember.design")],
  ["raami"])

P("R06", "Choice of profiles",
  "For every set of forces, the profile chosen for a member, a symmetry pair or a group is the first of the family that satisfies the limits on width, class and slenderness and whose utilization is within the limit in every load case of every member; "
  "all members of the group get it, the reported utilization is that of the chosen profile, and a change is reported exactly when there is one. The family of each section type holds exactly its catalogue profiles within the limits, with their catalogue dimensions.",
  "inputs", "all forces and wall thicknesses within the bounds, short lists of profiles of each family",
  "No test covers the choice of profiles.",
  ["metku/raami/frame_member.py", "metku/sections/steel/catalogue.py"],
  [("choice", "metku/raami/frame_member.py: SteelFrameMember.optimum_design, MemberGroup.optimum_design"), ("families", "metku/raami/frame_member.py: profile_list; metku/sections/steel/catalogue.py: make_section")],
  ["raami"])

P("E11", "Timber strengths, charring and sections",
  "For every service class, load duration, density, thickness, fire time and protection within the bounds, modification factors, design strengths, charring rates and the depth of "
  "charring follow EN 1995: nothing chars before the protection lets it, and depth never falls with time. Width, height, area, second moments and section moduli of rectangular, "
  "tapered and curved timber sections are those of the wood that is left at that place.",
  "inputs", "all densities, sizes, places along the member and fire times within the bounds",
  "No test covers timber.",
  ["metku/eurocodes/en1995/en1995_1_1.py", "metku/eurocodes/en1995/en1995_1_2.py", "metku/sections/timber/timber_section.py", "metku/materials/timber_data.py"],
  [("strengths", "metku/eurocodes/en1995/en1995_1_1.py: kmod, kdef, k_to_d, get_gammaM"), ("charring", "metku/eurocodes/en1995/en1995_1_2.py: charring_speed, d_char_n"),
   ("sections", "metku/sections/timber/timber_section.py: TimberSection, TaperedSection and subclasses")],
  ["timber"])

P("M02", "Resistance of timber members",
  "For every force, moment, length and place of lateral supports within the bounds, the utilization of a timber member is that of EN 1995: axial force, shear, biaxial bending of either "
  "sign, torsion, combined forces, buckling, lateral-torsional buckling of sagging and hogging beams, and the apex of tapered and curved beams. No sign of a force makes it safer than "
  "its absolute value allows, and the design utilization is the largest of all checks at all sections.",
  "inputs", "all forces, moments, lengths and side ratios within the bounds",
  "No test covers timber members.",
  ["metku/structures/timber/timber_member.py"],
  [("sections", "metku/structures/timber/timber_member.py: TimberMember.section_resistance"), ("stability", "metku/structures/timber/timber_member.py: check_buckling, check_LT_buckling, bracing"),
   ("apex", "metku/structures/timber/timber_member.py: check_apex_bending_stress, check_perpendicular_to_grain_tension")],
  ["timber"])

P("E12", "Composite beams and columns",
  "For every slab, span, tube and reinforcement within the bounds, the elastic stiffness and centroid of a composite beam are those of its transformed section, with creep by EN 1992 Annex B when asked; "
  "the plastic neutral axis balances the forces of slab and steel wherever it lies, and the plastic moment is that of the balanced stress blocks, never below the steel part alone. "
  "Stud resistance is the smaller of steel and concrete failure. A concrete-filled tube is exactly filled: areas, second moments and plastic moduli of tube, concrete and bars add up to those of the solid outline, "
  "and squash loads, critical force, buckling and plastic moment follow EN 1994.",
  "inputs", "all slab and tube sizes, spans, creep times, reinforcement and forces within the bounds",
  "No test covers composite members.",
  ["metku/sections/composite/composite_beam.py", "metku/sections/composite/composite_column.py", "metku/eurocodes/en1992/constants.py", "metku/eurocodes/en1994/en1994_1_1.py"],
  [("beam", "metku/sections/composite/composite_beam.py: CompositeIBeam"), ("column", "metku/sections/composite/composite_column.py: ConcreteFilledTube"),
   ("creep", "metku/eurocodes/en1992/constants.py: Concrete.creep_coefficient"), ("studs", "metku/eurocodes/en1994/en1994_1_1.py: ShearStud.PRd")],
  ["composite"])

P("C01", "Fabrication cost",
  "For every plate, member and weld within the bounds, the cost is the material by weight, grade and thickness plus the cost of each operation it goes through: working time at the hourly "
  "costs of the cost centre, consumables and energy. Every part of it is non-negative and belongs to the current dimensions: evaluating again, after other pieces or in another order, gives the cost of a fresh evaluation, "
  "and the total is the sum of the reported shares.",
  "inputs,histories", "all sizes, lengths and weld sizes within the bounds, orders of two evaluations",
  "No test covers the costs.",
  ["metku/cost/workshop.py", "metku/cost/cost_data.py", "metku/structures/steel/plates.py"],
  [("cost centres", "metku/cost/workshop.py: CostCentre.cost and subclasses"), ("prices", "metku/cost/cost_data.py: thickness_add_on, steel_grade_add_on"),
   ("plates", "metku/structures/steel/plates.py: RectPlate.cost")],
  ["cost"])

TR = "metku/raami/raami_plane_truss.py"
P("T01", "Plane truss geometry",
  "For every span, height, slope, start of the bottom chord, topology (K, N, KT) and number of divisions within the bounds, a generated roof truss has its top chord nodes on the two roof lines from the supports to the "
  "ridge, a level bottom chord, nodes in order, mirror symmetry, chords running through all their nodes, braces joining the nodes the topology says (verticals vertical), supports at its two ends, and mirrored nodes and "
  "members are found as pairs. Two of height at support, height at ridge and slope determine the third. Zone loads put on each part of the top chord the value of its zone.",
  "inputs", "all dimensions and zone boundaries within the bounds",
  "No test covers trusses.",
  [TR, "metku/raami/raami.py", "metku/raami/frame_node.py"],
  [("topology", TR + ": SlopedTruss.generate_topology"), ("supports and loads", TR + ": generate_supports, generate_piecewise_uniform_load"), ("pairs", "metku/raami/raami.py: Raami.symmetry")],
  ["truss"])

P("T02", "Equilibrium of truss analysis models",
  "For every uniform load on the chords, in each analysis model of a truss (no eccentricity, eccentricity of EN 1993, eccentricity elements at the chord faces), with braces as bars or beams, the reported forces of chords and "
  "braces are in equilibrium with the loads and the support reaction on the part of the truss left of any panel.",
  "inputs", "all load values within the bounds, twelve truss shapes",
  "No test covers trusses.",
  [TR, "metku/raami/frame_member.py"],
  [("models", TR + ": SlopedTruss.generate_fem, generate_elements of TopChord, BottomChord and TrussBrace"), ("loads", TR + ": SlopedTruss.generate_uniform_load")],
  ["truss"])

P("T03", "Tubular joints of trusses",
  "For every shift of the braces within the bounds, a K joint knows the intersection of its braces, its mirror joint follows, and brace angles, gap, and the points on the chord face and axis are those of the shifted "
  "centre lines. For every set of member forces, the utilization of a K or Y joint is the largest ratio of force to the smallest resistance of EN 1993-1-8 chapter 7 (chord face, chord shear, brace, punching shear, side wall, with "
  "interpolation), also at chord ends and with reinforcing plates. Every joint gets exactly the members that meet at its node.",
  "inputs", "all shifts, member forces and brace widths within the bounds",
  "No test covers trusses.",
  [TR],
  [("joints", TR + ": TubularKGapJoint, TubularYJoint, TubularJoint"), ("creation", TR + ": SlopedTruss.generate_joints")],
  ["truss"])

FR2 = "metku/frame2d/frame2d.py"
P("D01", "Geometry of frame2d models",
  "For every position of members, loads and supports within the bounds, members of a Frame2D that cross share a node at the crossing, members whose lines meet only beyond their ends do not, and a load or support inside a member gets a node there; "
  "the elements of a member follow each other from its start to its end without gaps. Lengths, directions and weights are those of the straight lines, a simple frame has the columns, beams and supports of its storeys and bays, and updating the model "
  "or moving a member keeps nodes and elements together.",
  "inputs", "all coordinates within the bounds", "No test covers positions of members, loads and supports.",
  [FR2], [("geometry", FR2 + ": Frame2D.add_member, add_support, add_pointload, generate_members, generate_supports, update_model; FrameMember.calc_nodal_coordinates, add_node_coord, line_intersection, point_intersection, generate_elements")],
  ["frame2d"])

P("D02", "Analysis of frame2d models",
  "For every load on a frame2d model, the displacements of its nodes, the forces of its elements and the forces passed on to member design solve the frame: every element follows beam theory with its joint stiffness or hinges, every node is in equilibrium with "
  "all loads of that case once and with their factors, linear line loads being linear over the member however it is divided, and supports hold exactly their directions. Load cases are independent, and self-weight is area times density times 10 along each member.",
  "inputs", "all load values within the bounds, eight frames", "No test covers frame2d with more than sample loads.",
  [FR2], [("analysis", FR2 + ": Frame2D.generate, calculate, add_self_weight; FrameMember.generate_elements, assign_forces, calc_nodal_displacements; PointLoad.add_load, LineLoad.add_load, Support.add_support")],
  ["frame2d"])

P("D03", "Design of frame2d members",
  "For every set of forces, the design forces of a frame2d member (overall and per load case) are its largest absolute values with their sign over all element ends, its largest displacements are those of its nodes, its utilization in each load case is that of a steel member of the "
  "same profile and length under the forces of that case, and its optimum design is the first profile of the family whose utilization is at most 1 in all load cases, a change being reported exactly when there is one; optimization of a frame ends only when no member changes.",
  "inputs", "all forces within the bounds, two load cases, up to three elements", "No test covers design of frame2d members.",
  [FR2], [("design", FR2 + ": FrameMember.calc_nodal_forces, get_absmax_force_value, assign_forces, design, optimum_design; Frame2D.optimize_members")],
  ["frame2d"])

C3 = "metku/eurocodes/en1993/en1993_1_3/"
P("K01", "Open thin-walled profiles",
  "For every open profile made of straight plates within the bounds, area, centroid, second moments, product moment, torsion constant, shear centre, warping constant "
  "and principal moments are those of the integrals over its plates. They follow the profile when it is moved or turned, and do not change when the nodes are listed from the other "
  "end or a plate is split.",
  "inputs,histories", "six shapes of two to five plates with free plate widths, thickness, position, orientation and split points",
  "No test covers open profiles.",
  [C3 + "open_prof.py"], [("profile", C3 + "open_prof.py: OpenProf"), ("plates", C3 + "open_prof.py: Segment")], ["coldformed"])

P("K03", "Rules for cold-formed members",
  "For every input in the range of the rules of EN 1993-1-3, the average yield strength, notional widths and rounded corners, edge stiffener buckling and distortional reduction, axial resistance, "
  "resistance of webs to transverse forces (one web: all load positions, stiffened flanges, webs prevented from rotating; two or more webs: both categories), screw bearing, shear, net section and validity limits, "
  "shear stiffness of sheeting and rotational stiffness CD,A are those of the standard.",
  "inputs", "all dimensions, strengths, load positions and shear force ratios within the bounds",
  "No test covers EN 1993-1-3.",
  [C3 + "en1993_1_3.py"], [("rules", C3 + "en1993_1_3.py: fya, gr, notional_width, rounding_factor, distortional_buckling_reduction_factor, buckling_factor_edge_stiffener, distortional_buckling_stress, axial_force_resistance, RwRd, RwRd_two_webs, screw_validity, screw_bearing_resistance, screw_net_secton_resistance, screw_shear_resistance_fin, sheeting_shear_stiffness, CD_A")],
  ["coldformed"])

P("K02", "Cold-formed Z and C sections and trapezoidal sheets",
  "For every Z or C section with rounded corners, with a lip on both, one or neither flange, within the bounds: straight parts, centre line widths, notional widths, centre line length, gross area, weight and average yield strength are those of the "
  "section's geometry with the core thickness; area, centroid and second moments are those of its centre line; reduction factors of web, flanges and lips are those of EN 1993-1-3 and 1-5 for the plate concerned; "
  "and the lateral stiffness from the sheeting combines profile and connection. Trapezoidal sheets have the web length, pitch, width and area of their geometry.",
  "inputs", "all dimensions within the bounds, one at a time for sections", "No test covers cold-formed sections.",
  [C3 + "cf_profs.py", C3 + "trapezoidal.py"], [("sections", C3 + "cf_profs.py: ZSection, CSection"), ("sheets", C3 + "trapezoidal.py: TrapezoidalSheet")], ["coldformed"])

FPJ = "metku/structures/steel/fin_plate_joint.py"
P("J01", "Fin plate joints",
  "For every fin plate joint with two to four rows and one or two columns of bolts within the bounds: edge distances of plate and beam and the lever arm follow from the bolt pattern, the forces on the outermost bolt are those of the elastic bolt group under the eccentric shear "
  "force, and bolt shear, bearing in plate and web, gross and net shear, block tearing of both, plate bending and lateral-torsional buckling resistances are those of the ECCS rules with the plate's and the beam's own strengths; "
  "the bolt position rules hold exactly when reported, changed dimensions count in every later resistance, and the cost is that of plate, holes, bolts and welds.",
  "inputs,histories", "all dimensions within the bounds, one at a time", "No test covers fin plate joints.",
  [FPJ, "metku/structures/steel/plates.py"], [("joint", FPJ + ": FinPlateJoint"), ("plate", "metku/structures/steel/plates.py: RectPlate, RectPlateWithHoles")], ["finplate"])

SKN = "metku/structures/steel/stressed_skin.py"
P("K04", "Stressed skin diaphragms",
  "For every panel of trapezoidal sheeting within the bounds, strengths of the seams, of the fasteners to rafters and edge members and against end collapse, the numbers of fasteners and sheets they use, and the shear flexibility of the panel "
  "(profile distortion, shear strain, fasteners, edge members and their sum) are those of the ECCS rules for the sheet's, panel's and members' own dimensions.",
  "inputs", "all dimensions of sheet and panel within the bounds, one at a time", "No test covers stressed skin design.",
  [SKN], [("skin", SKN + ": StressedSkin, StressedSkinRafters")], ["coldformed"])

P("O09", "Linear formulations of truss design describe the truss exactly",
  "The linear programs (truss_lp) and mixed-integer linear programs (truss_milp, TrussMILP) of minimum weight truss design accept exactly the designs they are meant to: the axial forces of every load case balance its loads at every free node, a force is compatible with the displacements and the profile chosen, every member takes exactly one profile (or vanishes with its nodes and groups as the topology rules say), the force of a chosen profile stays between its buckling and tensile resistance, and the objective is the weight. Scaling of the variables does not change what is accepted, and substituting a solution into the truss sets the profiles it selects.",
  "inputs", "node loads, member forces, displacements, areas and every 0/1 selection of profiles, members and nodes over small trusses and load cases",
  "No test covers the linear formulations; a wrong coefficient only shows as a wrong optimum.",
  ["metku/optimization/problems/truss_optimization.py", "metku/optimization/problems/truss_milp.py", "metku/framefem/framefem.py", "metku/frame2d/simple_truss.py"],
  [("truss_lp, truss_milp", "metku/optimization/problems/truss_optimization.py: truss_lp, truss_milp"),
   ("TrussMILP", "metku/optimization/problems/truss_milp.py: TrussMILP"),
   ("statics_matrix", "metku/framefem/framefem.py: FrameFEM.statics_matrix")],
  ["milp"])

SWP = "metku/sandwich/sandwich.py"
P("K05", "Sandwich panels with steel faces",
  "For every sandwich panel within the bounds, the bending and shear stiffness are those of two thin faces and a core about their common axis, the shear resistance and stiffness of its fasteners follow from the inner face, "
  "the screw and the supporting member by the ECCS recommendations, and the shear stiffness given to a member sums those of all its screw pairs.",
  "inputs", "thicknesses, widths, screws and supports within the bounds, one or two at a time", "No test covers sandwich panels.",
  [SWP], [("panel", SWP + ": SandwichPanel")], ["sandwich"])

P("T04", "Trusses of truss2d: geometry, joints, equilibrium and design forces",
  "A Truss2D built from its main dimensions has the chords those dimensions describe (stiff at the ridge, hinged at the eaves) and braces pinned between equally spaced places on the chords' faces, mirrored about the ridge; "
  "changing a height or the offset moves the chord, its nodes and its joints, and setting the gap of a K joint moves the ends of its two braces so that the clear distance between their feet on the chord is that gap, with the true angles between brace and chord. "
  "Under line loads on the chords displacements and member forces put every node into equilibrium; each joint takes the chord's forces at its own nodes (the larger at the two braces of a K joint) and its braces' angles, "
  "each part of a chord between two joints takes the forces of its nodes, its own length and 0.9 as buckling length factor, and the deflection is the largest vertical displacement of all bottom chords.",
  "inputs", "main dimensions and changes of them, gaps, line loads, chord forces and displacements within ranges, over four trusses of 6 to 12 braces",
  "No test covers truss2d: its geometry and analysis only show in plots.",
  ["metku/truss2d/truss2d.py", "metku/frame2d/frame2d.py"],
  [("chords and braces", "metku/truss2d/truss2d.py: Truss2D.generate_chords, generate_webs, add"),
   ("dimensions", "metku/truss2d/truss2d.py: Truss2D.H1, H2, H3, dx"),
   ("joints", "metku/truss2d/truss2d.py: TrussJoint.calc_nodal_coordinates, g1, e, theta1, theta2"),
   ("analysis", "metku/truss2d/truss2d.py: Truss2D.generate, TrussMember.generate_elements, TrussJoint.generate_eccentricity_elements"),
   ("forces", "metku/truss2d/truss2d.py: TrussJoint.N0, V0, M0, update_forces; TrussMember.update_steel_members_forces, update_steel_members_lengths"),
   ("deflection", "metku/truss2d/truss2d.py: Truss2D.get_deflection")],
  ["truss2d"])

P("T05", "Portal frames with trusses and Vierendeel trusses",
  "For every span, height and load within the bounds, a portal frame with a truss has its columns from the bases to the ends of the truss (and through the ends of its bottom chord when that reaches the columns), ids, pairs and "
  "a group of equal columns, and the weight of columns and truss; its chords are hinged at the columns' faces, half the column's depth from the axis, also after the columns changed. Each load case "
  "puts the loads of truss and columns on the frame exactly once: member forces follow from the displacements, every node is in equilibrium, and the bases hold what they are said to hold. A Vierendeel truss has equal panels, "
  "vertical braces stiffly connected to both chords, a Y joint at every end of a brace, and is in equilibrium with its line and point loads in each of its models.",
  "inputs", "spans, heights, loads on truss and columns within ranges, over the truss topologies, kinds of connection and bases",
  "No test covers portal trusses or Vierendeel trusses.",
  ["metku/raami/raami_portal_truss.py", "metku/raami/raami_vierendeel.py", "metku/raami/raami_plane_truss.py"],
  [("portal", "metku/raami/raami_portal_truss.py: PortalTruss, Truss2ColumnJoint"),
   ("Vierendeel", "metku/raami/raami_vierendeel.py: VierendeelTruss")],
  ["portal"])

P("D04", "Simple pin-jointed trusses",
  "In the pin-jointed trusses of frame2d.simple_truss and raami.raami_simple_truss (the standard three, ten and fifteen bar trusses and any truss given by lists of nodes, bars and profiles) the bars join the given nodes, carry axial forces only, equal at both ends and equal to EA/L times their elongation; the forces balance the loads at every free node in every load case, the supports do not move, and areas given to the bars of a truss are used in its analysis and in no other truss.",
  "inputs", "all loads and areas in the stated boxes for trusses with 3, 7, 10 and 15 bars",
  "No test covers simple trusses; the existing tests analyse other structures for one load each.",
  ["metku/frame2d/simple_truss.py", "metku/raami/raami_simple_truss.py", "metku/framefem/elements/rod.py"],
  [("simple trusses of frame2d", "metku/frame2d/simple_truss.py: SimpleTruss"), ("simple trusses of raami", "metku/raami/raami_simple_truss.py: SimpleTruss")],
  ["simple"])

P("O10", "Neighbourhood search, ant colony and moving asymptotes",
  "Whatever the objective, the constraints and the random numbers are: a step of the discrete neighbourhood search goes to the nearest point within the variables' bounds and is accepted exactly when that design is feasible and better than the best so far, and the search returns value and design of the best feasible design it drew; the ant colony draws with probabilities that add up to one, returns the visited design of least penalized value, and weakens and strengthens the trails of the ants' choices by their ranks; the method of moving asymptotes keeps the iterate between asymptotes that widen after steady and narrow after oscillating progress, and its subproblem has the values and slopes of the problem at the iterate within bounds that keep the iterate feasible.",
  "inputs", "all objective and constraint values, draws, iterates and asymptotes in the stated ranges for small problems",
  "No test covers these solvers.",
  ["metku/optimization/solvers/vns.py", "metku/optimization/solvers/aco.py", "metku/optimization/solvers/mma.py"],
  [("neighbourhood search", "metku/optimization/solvers/vns.py: DiscreteVNS.step, solve"), ("ants", "metku/optimization/solvers/aco.py: AntColonyOptimizer, Ant"),
   ("moving asymptotes", "metku/optimization/solvers/mma.py: MMA.take_action, gamma, MMAProblem")],
  ["search"])

P("O11", "Binary form of profile selection and nearly active constraints",
  "Turning a problem with profile index variables into one with binary variables keeps its meaning: every index variable becomes one binary per profile and one variable per section property, starting at the same profile; the added rows hold exactly at the points where one profile (or a mixture with weights that add up to one) gives each property its value; substituting values changes the sections of the group's members only, and not the catalogue. The constraints listed as potentially active at a point are the equalities and the inequalities that are violated or within 0.25 of their bound.",
  "inputs", "all relaxed selections, property values, disturbances of at least 0.001 and constraint values for two groups with three and two profiles",
  "No test covers the conversion.",
  ["metku/optimization/opt_functions.py", "metku/optimization/variables.py"],
  [("conversion", "metku/optimization/opt_functions.py: index2binary"), ("active constraints", "metku/optimization/opt_functions.py: potentially_active_constraints"),
   ("substitution", "metku/optimization/variables.py: CrossSectionVariable.substitute")],
  ["search"])
