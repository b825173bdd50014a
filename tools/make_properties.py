"""Writes properties.jsonl (the source of the property texts)."""
import json, os
SD = "stokesian_dynamics/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith(("find_", "tests")) else SD + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


LAMB = ("The only tests compare 88 two-sphere, equal-arrangement drag/stresslet numbers in one input form to "
        "1e-3; ")

prop("C01", "Far-field pair couplings obey Faxen's laws for any radii and separation",
     "For any two spheres of any radii, any centre separation and any viscosity, the far-field mobility that links the force, torque "
     "and stresslet on one to the velocity, angular velocity and rate of strain of the other equals Faxen's laws "
     "applied to the exact singularity flow (the Oseen tensor and its derivatives, with the finite-size Laplacian corrections). "
     "A sphere acting on itself gives the isolated-sphere values (6 pi mu a, 8 pi mu a^3, 20/3 pi mu a^3), and a pair whose "
     "centres are closer than 2.001 mean radii is treated as if at exactly that distance along the same line.",
     ["inputs"], "every separation vector, pair of radii, viscosity and tensor component",
     LAMB + "they place spheres along coordinate axes with a loose tolerance, so most tensor components, size corrections and directions are never compared with anything.",
     ["functions/generate_Minfinity.py"],
     [("pair coupling tensors", SD + "functions/generate_Minfinity.py: M11, M12, M13, M22, M23, M33 and condensed rows"),
      ("Oseen tensor derivatives", SD + "functions/generate_Minfinity.py: J, R, K, D_J, DD_J, D_R, D_K, Lap_*, DLap_*"),
      ("near-contact clamp", SD + "functions/generate_Minfinity.py: generate_Minfinity_loop")],
     "entries of the matrix returned by generate_Minfinity")

prop("C02", "Far-field mobility matrix holds every pair's coupling in its own place",
     "For any number of spheres and dumbbells in any arrangement, the far-field mobility matrix is symmetric and each entry is the coupling of "
     "exactly the particle pair and components that its row and column stand for, with nothing left unfilled or overwritten. "
     "Dumbbell rows and columns are expressed in terms of the mean and half-difference of the two beads' motions, and switching bead-bead "
     "interactions off removes the couplings between different dumbbell beads and nothing else.",
     ["inputs", "configurations"], "every number of spheres and dumbbells, every arrangement, both bead-bead settings",
     LAMB + "there are never dumbbells, never more than two particles, and never more than one size ratio per matrix.",
     ["functions/generate_Minfinity.py", "functions/shared.py"],
     [("block placement", SD + "functions/shared.py: submatrix_coords_tuple"),
      ("pair loop and symmetrisation", SD + "functions/generate_Minfinity.py: generate_Minfinity_loop"),
      ("dumbbell change of variables", SD + "functions/generate_Minfinity.py: generate_Minfinity")],
     "matrix returned by generate_Minfinity")

prop("C03", "Lubrication pair tensors have the exact axisymmetric two-sphere form",
     "For any two nearby spheres the lubrication resistance tensors linking velocity, angular velocity and strain rate to force, torque and stresslet are "
     "the standard axisymmetric tensors about the line of centres, weighted by the tabulated resistance scalars for that "
     "separation and size ratio, for every direction of the line of centres. "
     "Exchanging the two spheres gives the transposed coupling required by the reciprocal theorem.",
     ["inputs"], "every unit direction, scaled separation, size ratio and tensor component",
     LAMB + "only a few directions along axes are used, where many tensor components vanish.",
     ["functions/generate_R2Bexact.py"],
     [("axisymmetric basis tensors", SD + "functions/generate_R2Bexact.py: L1..L9"),
      ("pair tensors", SD + "functions/generate_R2Bexact.py: Af, Bf, Cf, Gf, Hf, Mf, con_Gf_row, con_Hf_row")],
     "entries of the matrix returned by generate_R2Bexact")

prop("C04", "Lubrication matrix sums exactly the near pairs, each in its own place",
     "For any arrangement of spheres and dumbbells, the lubrication matrix is symmetric, proportional to viscosity, and equals the sum over all pairs "
     "of beads within the cutoff of that pair's two-sphere resistance, added to the self blocks of both and to the block "
     "between them, scaled by the powers of the radii that make it dimensionally correct. "
     "Particles with no neighbour inside the cutoff have zero rows and columns, and dumbbell beads contribute through force-velocity couplings only, expressed in "
     "the dumbbell sum and difference variables.",
     ["inputs", "configurations"], "every number and arrangement of particles, size ratios in the table, cutoff and viscosity, periodic or not",
     LAMB + "one pair only, so sums over several neighbours, unequal sizes within a crowd and dumbbell blocks are never run.",
     ["functions/generate_R2Bexact.py", "functions/shared.py"],
     [("pair loop, self sums, scales", SD + "functions/generate_R2Bexact.py: generate_R2Bexact_loop"),
      ("setup and dumbbell change of variables", SD + "functions/generate_R2Bexact.py: generate_R2Bexact")],
     "matrix returned by generate_R2Bexact")

prop("C05", "Neighbour search finds exactly the pairs within the cutoff",
     "For any positions and radii, the neighbour search returns each unordered pair of particles (a particle with itself included) whose centre distance divided by the mean radius "
     "is within the cutoff exactly once, lower index first, and no other pair, along with the displacement from the first to the second in units of "
     "the mean radius, the matching distance, and the second-to-first size ratio. "
     "In a periodic box, sheared or not, the displacement is the one to the image of the second particle in the cell centred on the first.",
     ["inputs", "configurations"], "every set of positions, radii, cutoff, box and accumulated shear",
     "No test calls the neighbour search directly, and the two-sphere comparison is never periodic.",
     ["functions/shared.py"],
     [("neighbour search", SD + "functions/shared.py: close_particles"),
      ("sheared lattice", SD + "functions/shared.py: shear_basis_vectors")],
     "return value of close_particles")

prop("C06", "Resistance scalars are looked up for the right pair and interpolated linearly",
     "For any tabulated size ratio and its reciprocal, either particle role and any scaled separation, each resistance scalar used in the lubrication correction is the "
     "linear interpolation in separation of that scalar's own table for that ratio, held constant beyond the ends of the table. "
     "The tables used for the correction equal the full two-sphere resistance tables minus the resistance that the far-field "
     "mobility already contains for the same pair.",
     ["inputs"], "every scalar, size ratio, role and separation; every table entry",
     LAMB + "they touch a handful of separations and do not relate the two tables shipped with the code.",
     ["functions/generate_R2Bexact.py", "resistance_scalars/data.py"],
     [("lookup and interpolation", SD + "functions/generate_R2Bexact.py: XYZ, XA..ZM"),
      ("tables", SD + "resistance_scalars/data.py")],
     "values of the scalar functions; shipped tables")

prop("C07", "Five-component stresslet form is a lossless isometry",
     "Converting a symmetric traceless 3x3 tensor per particle to its five-component form and back returns the same tensor, for any number of particles. "
     "The conversion is linear, and the dot product of two five-component forms equals the double contraction of the two tensors.",
     ["inputs"], "every list of symmetric traceless tensors and five-vectors",
     LAMB + "the round trip is exercised only through two spheres' stresslets.",
     ["functions/simulation_tools.py", "functions/shared.py"],
     [("condense / uncondense", SD + "functions/simulation_tools.py: condense, condense_and_flatten, uncondense"),
      ("contraction table", SD + "functions/shared.py: contraction, cond_E")],
     "return values")

prop("C08", "Grand vectors keep every particle's quantities in the right slots",
     "For any number of spheres and dumbbells, the grand force vector lists sphere forces, torques and condensed stresslets and then dumbbell "
     "mean and difference forces, particle by particle, and splitting a grand velocity vector returns each particle's quantities from the same slots. "
     "Building a vector and splitting it again returns the original per-particle quantities.",
     ["inputs"], "every number of spheres and dumbbells, including none, and all values",
     LAMB + "there are never dumbbells, and only one vector layout is exercised.",
     ["functions/simulation_tools.py", "functions/shared.py"],
     [("vector assembly", SD + "functions/simulation_tools.py: construct_force_vector_from_fts"),
      ("vector splitting", SD + "functions/simulation_tools.py: deconstruct_velocity_vector_for_fts"),
      ("layout tables", SD + "functions/shared.py: posdata_data")],
     "return values")

prop("C09", "Changing which quantities are prescribed preserves the force-velocity relation",
     "For any symmetric invertible resistance matrix and any split of spheres and dumbbells into force-prescribed and velocity-prescribed ones, every pair of force and "
     "velocity vectors related by the original matrix is related by the converted matrix after the prescribed quantities are exchanged. "
     "Converting does not modify the matrix it is given.",
     ["inputs", "configurations"], "every matrix, counts and partition (including empty parts)",
     LAMB + "only the force/torque/strain form with every particle force-prescribed is run.",
     ["functions/simulation_tools.py"],
     [("form conversions", SD + "functions/simulation_tools.py: fts_to_fte_matrix, fte_to_ufte_matrix, ufte_to_ufteu_matrix, fts_to_duf_matrix")],
     "returned matrices")

prop("C10", "Solved motions satisfy the resistance relation and every prescribed value",
     "For every supported input form, periodic or not, the forces, torques, stresslets, velocities, angular velocities, strain rates and dumbbell quantities returned for a frame satisfy "
     "the grand resistance relation for that frame's configuration. "
     "Every quantity that the input form prescribes is returned with exactly its prescribed value, attached to the right particle.",
     ["inputs", "configurations"], "every input form, configuration and prescribed values",
     LAMB + "one input form, two spheres, and only forces, torques and stresslets are compared.",
     ["functions/timestepping.py", "functions/simulation_tools.py"],
     [("solve for a frame", SD + "functions/timestepping.py: generate_output_FTSUOE")],
     "return value of generate_output_FTSUOE")

prop("C11", "Grand resistance is the inverse far-field mobility plus lubrication",
     "The grand resistance matrix equals the inverse of the far-field mobility plus the lubrication matrix, both built from the same configuration, viscosity, cutoff, box and accumulated shear. "
     "When told not to rebuild, it uses the supplied previous inverse unchanged, and the returned inverse is the one that was used; the far-field-only option leaves out exactly the lubrication part. "
     "With the drag-only option the far-field part is that of isolated particles. The supplied previous inverse is never altered, in any of these cases.",
     ["inputs", "configurations", "histories"], "every configuration, viscosity, option combination and sequence of rebuild/reuse calls",
     LAMB + "the reuse, far-field-only, viscosity and periodic paths are never run.",
     ["functions/generate_grand_resistance_matrix.py"],
     [("assembly and caching", SD + "functions/generate_grand_resistance_matrix.py")],
     "returned matrices")

prop("C12", "Orientation markers turn rigidly about the particle's angular velocity",
     "Over a time step each sphere's orientation marker vectors, measured from the centre, are rotated about the angular velocity direction by the "
     "angular speed times the step, so their lengths and mutual angles are unchanged, and are carried to the new centre. "
     "Zero angular velocity or a marker parallel to it leaves the vector from the centre unchanged, and the two-step scheme uses three halves of the current minus half of the previous angular velocity.",
     ["inputs"], "every centre, marker, angular velocity and step",
     "No test involves orientation at all.",
     ["functions/timestepping.py"],
     [("rotation update", SD + "functions/timestepping.py: euler_timestep_rotation, ab2_timestep_rotation")],
     "returned orientation vectors")

prop("C13", "Each time-stepping scheme advances particles by its own formula",
     "From each frame to the next, sphere centres, dumbbell centres and dumbbell extensions move by the step times the Euler, two-step Adams-Bashforth (Euler on the first step of a run), or "
     "classical fourth-order Runge-Kutta combination of the velocities found for the frame's configurations plus the background flow, each stage being evaluated at the configuration and time that the scheme prescribes. "
     "Particle sizes never change.",
     ["inputs", "histories", "configurations"], "every configuration, scheme, velocity history, frame number and step",
     "No test takes a time step.",
     ["run_simulation.py", "functions/timestepping.py"],
     [("frame update", SD + "run_simulation.py: generate_frame"),
      ("step formulae", SD + "functions/timestepping.py: euler_timestep, ab2_timestep")],
     "recorded positions of successive frames")

prop("C14", "Periodic wrapping moves particles only by whole box vectors, into the box",
     "Wrapping positions in a periodic box changes each position by an integer combination of the current (possibly sheared) box vectors and "
     "leaves it inside the box spanned by them and centred on the origin. "
     "A position already inside is unchanged.",
     ["inputs"], "every position, box corner, box size and accumulated shear",
     "No test is periodic.",
     ["functions/timestepping.py", "functions/shared.py"],
     [("wrapping", SD + "functions/timestepping.py: wrap_around"),
      ("sheared lattice", SD + "functions/shared.py: shear_basis_vectors")],
     "returned positions")

prop("C15", "Background flow is added at each particle's own position",
     "Adding the background flow gives each sphere its velocity plus the uniform flow plus the rotation and strain of the background evaluated at its position relative to the centre of the flow, and adds the background rotation to its angular velocity. "
     "Each dumbbell gets the same flow at its centre, and half its extension's rotation and strain is added to its half-difference velocity.",
     ["inputs"], "every number of particles, positions, velocities and linear background flow",
     "The tests never add a background flow.",
     ["functions/timestepping.py"],
     [("background flow", SD + "functions/timestepping.py: add_background_flow_spheres, add_background_flow_dumbbells")],
     "returned velocities")

prop("C16", "Periodic kernels are exact derivatives of the Ewald-split Oseen tensor",
     "For any separation, radii, viscosity and splitting parameter, every real-space periodic coupling is the Faxen-law coupling built from exact derivatives of the real-space half of the Ewald-split "
     "Oseen tensor, and every wave-space coupling is the Fourier transform of the same coupling of the wave-space half. "
     "As the splitting parameter tends to zero the real-space coupling becomes the unbounded far-field coupling.",
     ["inputs"], "every separation or wave vector, radii, viscosity, splitting parameter and tensor component",
     "No test touches the periodic code.",
     ["functions/generate_Minfinity_periodic.py"],
     [("real-space kernels", SD + "functions/generate_Minfinity_periodic.py: DD_rerfclr..DDLapLap_rerfclr, generate_erfcs, J..DLap_K, ar..mr"),
      ("wave-space kernels", SD + "functions/generate_Minfinity_periodic.py: Jtilde..mktilde")],
     "kernel values and entries of the periodic mobility matrix")

prop("C17", "Periodic far-field mobility is a lattice sum over images, placed pair by pair",
     "For any periodic configuration the far-field mobility is symmetric and each entry is the sum over the lattice images and wave vectors of the coupling of the pair and components that "
     "its row and column stand for, including the self-image terms on the diagonal and the dumbbell mean/half-difference variables. "
     "Moving every particle by the same vector leaves it unchanged, and the wave vectors are the reciprocal lattice of the current, possibly sheared, box.",
     ["inputs", "configurations"], "every number and arrangement of particles, sizes, box and accumulated shear",
     "No test touches the periodic code.",
     ["functions/generate_Minfinity_periodic.py", "functions/shared.py"],
     [("lattice sums", SD + "functions/generate_Minfinity_periodic.py: M11..M33"),
      ("assembly", SD + "functions/generate_Minfinity_periodic.py: generate_Minfinity_periodic, generate_Minfinity_loop")],
     "matrix returned by generate_Minfinity_periodic")

prop("C18", "Shear inputs describe one consistent flow and its exact time integral",
     "For every supported orientation and time, the angular velocity and rate of strain given for a shear flow are the antisymmetric and symmetric parts of a single simple-shear velocity gradient, the strain being the same for every sphere. "
     "The accumulated rotation and strain differentiate in time to the instantaneous ones.",
     ["inputs"], "every amplitude, period, phase, frame, step, orientation and particle count",
     "No test uses the shear inputs.",
     ["setups/functions_inputs.py"],
     [("shear inputs", SD + "setups/functions_inputs.py: oscillatory_shear, constant_shear")],
     "returned flow quantities")

prop("C19", "Repulsive forces are equal and opposite, along the line of centres, short-ranged",
     "For any arrangement, repulsion adds to each particle the sum over the other beads within the cutoff of a force pointing away from that bead along the line of centres, with the "
     "stated magnitude (exponential in the gap, constant when overlapping, scaled by the reduced radius), equal and opposite on the two. "
     "Dumbbells receive the sum and difference of their beads' forces, particles in the fixed lids receive none, and no other force changes.",
     ["inputs"], "every arrangement, sizes, strength, range and lid size",
     "No test uses the repulsion input.",
     ["setups/functions_inputs.py"],
     [("repulsion", SD + "setups/functions_inputs.py: repulsion_forces")],
     "returned forces")

prop("C20", "Randomly generated configurations never overlap and stay in their box",
     "For every random outcome, each placed sphere centre or dumbbell bead centre lies inside the requested box or quadrilateral, and no two placed or pre-existing particles overlap. "
     "Where the placement is periodic (in x and z), the dumbbell centre lies inside the box in these directions, the first bead does in y, and periodic images count as particles. "
     "The number, order, sizes, lengths and fixed angles of the returned particles are those requested.",
     ["inputs", "schedules"], "every random stream, box, sizes and pre-existing particles for which placement succeeds",
     "No test uses random placement.",
     ["setups/functions_positions.py"],
     [("random placement", SD + "setups/functions_positions.py: randomise_spheres, randomise_dumbbells, randomise_dumbbells_periodic, randomise_beads_inside_quadrilateral, overlaps, overlaps_periodic")],
     "returned positions")

prop("C21", "Near-field resistance functions respect exchange of the two spheres",
     "For every size ratio, the near-field forms of the two-sphere resistance functions that couple like motions of the two spheres are unchanged, up to the dimensional power of the ratio that their definition requires, when the two spheres are exchanged. "
     "When the two spheres translate, turn or strain together as one body, the singular parts of the force, torque and stresslet on each sphere cancel, at every singular order (1/xi, log(1/xi) and xi log(1/xi)).",
     ["inputs"], "every positive size ratio",
     "No test uses the resistance-scalar generator.",
     ["find_resistance_scalars/functions_nearfield.py"],
     [("near-field coefficients", "find_resistance_scalars/functions_nearfield.py: G1xa..G3zm")],
     "coefficient functions")

prop("C22", "Safety checks trip exactly when a run is outside its valid range",
     "The particle-size check reports an error exactly when some ratio of two particle radii is missing from the tabulated ratios. "
     "With explosion protection on, the dumbbell check reports an error exactly when some dumbbell is longer than five units, and with it off never; neither ever clears an error already reported.",
     ["inputs"], "every list of sizes and extensions and both settings",
     "No test calls the checks.",
     ["functions/timestepping.py"],
     [("size ratio check", SD + "functions/timestepping.py: do_we_have_all_size_ratios"),
      ("dumbbell check", SD + "functions/timestepping.py: did_something_go_wrong_with_dumbells")],
     "returned flags")

prop("C23", "Saved history holds the right frames in order, and resuming continues it",
     "For any run length, saving interval and saving start, the saved positions, orientations and extensions are those at the start of each frame that is due for saving, in order, once each, followed by the final configuration when the last frame is due; "
     "saved forces are those of the same frames. "
     "Stopping and resuming from a backup yields the same saved history as an uninterrupted run, for one-step schemes with the far-field inverse recomputed every frame.",
     ["histories", "configurations", "crash_points"], "every run length, saving interval, saving start and interruption point",
     "No test runs the simulation loop.",
     ["run_simulation.py", "setups/positions.py"],
     [("saving", SD + "run_simulation.py: generate_frame"),
      ("resuming", SD + "setups/positions.py, run_simulation.py")],
     "saved arrays")

prop("C24", "Elapsed times and time-left estimates are reported correctly",
     "The elapsed-time text shows the whole days, hours, minutes and seconds contained in the given number of seconds. "
     "The time-left estimate is three percent more than the number of remaining frames of each kind (those that rebuild the far-field matrix and those that do not) times the average time that kind of frame has taken so far in this run (leaving out the run's first frame when it includes compilation and another rebuilding frame has been timed), a kind not yet measured counting at the rebuilding average.",
     ["inputs", "histories"], "every number of seconds, frame number, run length, rebuild interval and timing history",
     "No test calls the timing helpers.",
     ["functions/shared.py", "functions/timestepping.py"],
     [("elapsed time text", SD + "functions/shared.py: format_elapsed_time"),
      ("time left", SD + "functions/timestepping.py: calculate_time_left")],
     "returned text and numbers")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
