"""Write properties.jsonl (source of the property list)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

G = "phono3py/phonon/grid.py"
add("C01", "Sampling grid covers the Brillouin zone exactly once, with all surface images",
 "For every lattice and mesh (regular or generalized regular grid) the q-point grid contains every sampling point of the reciprocal cell exactly once up to reciprocal-lattice translation, each stored point is a shortest image in the first Brillouin zone, and exactly all equally short images are stored when it is on the zone boundary. The number of grid points, the integer transformation of a generalized grid, and all index/address/q-point conversions are mutually consistent, in the dense and the sparse index layout alike.",
 ["inputs", "configurations"], "all lattices (any basis), all meshes incl. generalized grid matrices and length-specified meshes, both index layouts",
 "Tests check a handful of fixed crystals and meshes against recorded numbers; skewed bases, non-cubic generalized grids and boundary multiplicities are sampled only there.",
 [G, "c/bzgrid.c", "c/grgrid.c", "c/snf3x3.c", "c/niggli.c", "c/recgrid.c"],
 [("Smith normal form of grid matrix", "c/snf3x3.c"), ("BZ reduction by comparing distances", "c/bzgrid.c"), ("BZGrid/GridMatrix", G)],
 ["BZGrid", "get_grid_point_from_address", "get_qpoints_from_bz_grid_points"])
add("C02", "Irreducible grid points are exactly the symmetry orbits with their weights",
 "Irreducible sampling points and their weights are exactly the orbits of the grid under the crystal's reciprocal point group (with or without time reversal), weights sum to the number of grid points, and rotating a grid point gives the grid point of the rotated q. Grids that break the crystal symmetry are either rejected or never produce orbits that are not symmetry-related.",
 ["inputs", "configurations"], "all crystals, meshes, time-reversal and symmetry on/off settings",
 "Tests hold recorded lists of irreducible points for a few crystals.",
 [G, "c/grgrid.c", "c/bzgrid.c"],
 [("ir grid map", "c/grgrid.c"), ("get_grid_points_by_rotations", G)],
 ["get_ir_grid_points", "get_grid_points_by_rotations", "get_ir_grid_points weights"])
add("C03", "Triplets at a grid point are complete, momentum conserving and weighted",
 "For each grid point q the triplets (q,q',q'') satisfy q+q'+q''=G exactly, represent every pair (q',q'') of the mesh exactly once through the little group of q and exchange of q' and q'', and their weights sum to the number of mesh points. The whole-BZ choice of q', q'' makes the normal/Umklapp classification reproducible from the stored addresses.",
 ["inputs", "configurations"], "all crystals, meshes, grid points, symmetry and exchange switches",
 "Tests compare a few triplet lists with stored arrays.",
 ["phono3py/phonon3/triplets.py", "c/triplet.c", "c/triplet_grid.c"],
 [("triplets at q", "c/triplet_grid.c")], ["get_triplets_at_q", "get_all_triplets", "Interaction.get_triplets_at_q"])
add("C04", "Energy-conservation weights of tetrahedron and smearing methods are correct",
 "Linear-tetrahedron weights over a full grid are non-negative, reproduce the exact linear-interpolation integral of each sampled band function, integrate to the number of states, and are independent of how the grid is traversed; smearing weights equal the normalized Gaussian of the documented energy difference. Weights for one, two and three phonon processes follow the documented signs, and triplets flagged as zero contribute nothing.",
 ["inputs", "configurations"], "all grids, frequencies (with degeneracy and plateaux), frequency points, smearing widths and cutoffs",
 "Tests only see weights through a few final self-energies.",
 ["phono3py/other/tetrahedron_method.py", "phono3py/phonon3/triplets.py", "c/tetrahedron_method.c", "c/triplet_iw.c"],
 [("linear tetrahedron", "c/tetrahedron_method.c"), ("triplet weights", "c/triplet_iw.c")],
 ["get_integration_weights", "get_triplets_integration_weights"])
add("C05", "Harmonic phonons on the grid equal the dynamical matrix eigenproblem",
 "Frequencies and eigenvectors at every grid point equal those of the crystal's dynamical matrix at that q-point (including the non-analytical correction and its q->0 direction), eigenvectors are orthonormal, and the answer does not depend on the solver, on the order in which points are computed, on whether symmetry is used to obtain points by rotation, nor on the number of calls. Imaginary modes are reported as negative frequencies.",
 ["inputs", "histories", "configurations"], "all crystals, force constants, NAC parameters, grid points and call orders",
 "Tests use few crystals and compare self-energy level quantities; the equality at all q, with NAC and zone-centre directions, is not asserted.",
 ["phono3py/phonon/solver.py", "phono3py/phonon3/interaction.py", "c/dynmat.c", "c/phonon.c", "c/phononcalc.c"],
 [("C dynamical matrix builder", "c/dynmat.c"), ("solver", "phono3py/phonon/solver.py")],
 ["Phono3py.get_phonon_data", "Phono3py.run_phonon_solver", "Interaction.run_phonon_solver"])
add("C06", "Displacement data sets are what was requested and generate all pairs by symmetry",
 "Systematic displacement data sets contain displacements of the requested length such that the crystal symmetry generates from them all first-order and pair displacements, with the requested direction/plus-minus/cutoff-pair options, and random ones have the requested number and amplitude and are reproducible by seed. Displacement arrays, supercells with displacements and the data set describe the same displaced structures.",
 ["inputs", "configurations"], "all crystals, supercells, options, cutoffs and seeds",
 "Tests count displacements of a few crystals.",
 ["phono3py/phonon3/displacement_fc3.py", "phono3py/phonon3/dataset.py", "phono3py/api_phono3py.py"],
 [("get_third_order_displacements", "phono3py/phonon3/displacement_fc3.py")],
 ["Phono3py.generate_displacements", "Phono3py.dataset", "Phono3py.supercells_with_displacements"])
add("C07", "Force constants of a known force field are recovered from its forces",
 "For forces of a known force field on the generated displaced supercells, the produced second- and third-order force constants converge to its exact derivatives with the documented error order, for full and compact layouts and for every built-in calculator. With a pair cutoff, elements that were requested to be kept are the same as without cutoff and the rest is zero.",
 ["inputs", "configurations"], "all crystals, force fields, displacement options, FC layouts and calculators",
 "Tests compare with recorded force constants of a few DFT data sets.",
 ["phono3py/phonon3/fc3.py", "phono3py/api_phono3py.py", "phono3py/interface/fc_calculator.py", "phono3py/phonon3/dataset.py", "c/fc3.c"],
 [("finite-difference fc3 with distribution by symmetry", "phono3py/phonon3/fc3.py")],
 ["Phono3py.produce_fc2", "Phono3py.produce_fc3", "Phono3py.fc3"])
add("C08", "Symmetrization projects force constants; compact and full layouts agree",
 "Symmetrizing force constants leaves index-permutation symmetric and translationally invariant ones unchanged, makes arbitrary ones index-permutation symmetric and reduces their acoustic sum rule violation, and does the same for the compact and the full layout. Compact and full force constants give identical results in every later calculation.",
 ["inputs", "configurations"], "all crystals, arbitrary arrays, both layouts",
 "Tests compare two recorded data sets.",
 ["phono3py/phonon3/fc3.py", "c/fc3.c", "phono3py/phonon3/real_to_reciprocal.py"],
 [("set_permutation_symmetry_fc3 and compact variants", "c/fc3.c")],
 ["Phono3py.symmetrize_fc3", "set_translational_invariance_fc3", "set_permutation_symmetry_fc3"])
add("C09", "Three-phonon interaction strength equals its definition",
 "The ph-ph interaction strength of every triplet and band combination equals the squared modulus of the Fourier and normal-mode transform of third-order force constants as documented, with the documented unit factor, vanishing below the cutoff frequency. Options (band subsets, constant value, cut-off of fc3 by distance, symmetrization of the transform, openmp loop order, language) change only what they document.",
 ["inputs", "configurations"], "all crystals, fc3, grid points, band indices and options",
 "Tests record strengths of a few fixed crystals.",
 ["phono3py/phonon3/interaction.py", "c/interaction.c", "c/real_to_reciprocal.c", "c/reciprocal_to_normal.c"],
 [("r2r and r2n transforms", "c/interaction.c")], ["Interaction.interaction_strength", "Interaction.run"])
add("C11", "Phonon linewidth equals Fermi golden rule sum over triplets",
 "Imaginary self-energy at every frequency, temperature, band and integration method equals the documented sum over triplets of interaction strength, occupation factors and energy-conservation weights. It is the sum of its normal and Umklapp parts and of its detailed per-triplet contributions, is non-negative at band frequencies, and each requested grid point, sigma and temperature gets its own values.",
 ["inputs", "configurations", "histories"], "all crystals, grid points, band subsets, temperatures, sigmas, frequency point choices",
 "Tests record a few crystals/options; combinations of several temperatures, sigmas and detailed output are not sampled.",
 ["phono3py/phonon3/imag_self_energy.py", "c/imag_self_energy_with_g.c", "c/pp_collision.c"],
 [("imag self energy with g", "c/imag_self_energy_with_g.c"), ("low-memory path", "c/pp_collision.c")],
 ["Phono3py.run_imag_self_energy", "ImagSelfEnergy", "Phono3py.run_thermal_conductivity gamma"])
add("C12", "Real self-energy and spectral function obey their definitions",
 "The real part of the self-energy equals the documented principal-value sum with the given epsilon, and the spectral function equals the documented combination of frequency shift and half linewidth where the shift is the Kramers-Kronig transform of the imaginary part. Values at bands and at frequency points agree where they coincide and each grid point, epsilon/sigma and temperature keeps its own values.",
 ["inputs", "configurations"], "all crystals, grid points, temperatures, epsilons and frequency points",
 "Tests record values of a single crystal.",
 ["phono3py/phonon3/real_self_energy.py", "phono3py/phonon3/spectral_function.py", "c/real_self_energy.c"],
 [("real self energy at bands / frequency point", "c/real_self_energy.c")],
 ["Phono3py.run_real_self_energy", "Phono3py.run_spectral_function"])
add("C13", "Joint density of states equals the two-phonon energy sum",
 "The joint density of states at a grid point equals the documented sum over triplets of energy-conserving pairs (class 1 decay/absorption difference and class 2 sum), optionally weighted by occupations, for tetrahedron and smearing methods. Its class 2 part integrates to the number of band pairs, and results do not depend on using mesh symmetry.",
 ["inputs", "configurations"], "all crystals, grid points, temperatures, methods, frequency points",
 "Tests record values for two crystals.",
 ["phono3py/phonon3/joint_dos.py", "phono3py/api_jointdos.py"],
 [("JointDos", "phono3py/phonon3/joint_dos.py")], ["Phono3pyJointDos.run"])
add("C14", "RTA thermal conductivity equals the documented mode sum",
 "In the relaxation time approximation kappa equals the average over the grid of documented mode kappa, each of which is heat capacity times velocity outer product times lifetime from the reported linewidths, and every reported array (frequency, group velocity, gv_by_gv, heat capacity, gamma, weights, q-points) is consistent with the others. Symmetry reduction to irreducible q-points does not change kappa, and kappa is a symmetric tensor invariant under the point group.",
 ["inputs", "configurations"], "all crystals, meshes, temperatures, sigmas, symmetry switches",
 "Tests record six kappa numbers for two crystals.",
 ["phono3py/conductivity/rta.py", "phono3py/conductivity/base.py", "phono3py/conductivity/utils.py"],
 [("ConductivityRTA", "phono3py/conductivity/rta.py")], ["Phono3py.run_thermal_conductivity", "Phono3py.thermal_conductivity"])
add("C15", "Physical results do not depend on how the crystal is described",
 "Rotating the crystal, shifting its origin, permuting its atoms, wrapping atoms by lattice vectors, choosing another basis of the same lattice, or giving a conventional cell with its primitive matrix, changes frequencies, interaction strengths, linewidths, and thermal conductivity only by the corresponding tensor rotation or index relabelling. Switching symmetry off gives the same observable quantities.",
 ["inputs", "configurations"], "all crystals, force fields, redescriptions and symmetry switches",
 "Tests use each crystal in a single description.",
 ["phono3py/api_phono3py.py", "phono3py/phonon/grid.py", "phono3py/phonon3/interaction.py", "phono3py/phonon3/triplets.py"],
 [("symmetry handling", "phono3py/api_phono3py.py")], ["Phono3py.thermal_conductivity", "Phono3py.run_imag_self_energy"])
add("C16", "Distributed and resumed RTA runs give the result of one single run",
 "Computing linewidths per grid point or band in any partition and order, writing them to files and reading them back gives exactly the thermal conductivity of the single run, also when linewidths, detailed linewidths or interaction strengths are read instead of computed. An incomplete set of files never yields a thermal conductivity silently.",
 ["histories", "crash_points", "configurations"], "all partitions of grid points and bands, missing files, sigmas and options",
 "Tests do not exercise file-based distribution beyond one path.",
 ["phono3py/conductivity/utils.py", "phono3py/conductivity/rta.py", "phono3py/file_IO.py"],
 [("set_gamma_from_file", "phono3py/conductivity/utils.py"), ("write_gamma", "phono3py/conductivity/utils.py")],
 ["Phono3py.run_thermal_conductivity(write_gamma/read_gamma)", "kappa-m*.hdf5"])
add("C17", "Collision matrix and direct solution follow their definitions",
 "The collision matrix of the direct solution equals its defining sum over the third phonon of three-phonon strengths, energy-conservation weights and 1/sinh occupation factors, for irreducible and for reducible matrices, with the linewidths (plus isotope and boundary scattering) of the RTA calculation on its diagonal. Away from the pseudo-inverse cutoff the thermal conductivity is that of the pseudo-inverse of the whole symmetrized collision matrix of the grid, whether the irreducible or the reducible matrix is used and whichever solver is chosen. The RTA value reported with the direct solution equals the independent RTA calculation (for the reducible matrix: that of its diagonal). Conductivities are finite.",
 ["inputs", "configurations"], "all crystals, meshes, temperatures, integration methods and solver choices",
 "Tests record kappa for two crystals.",
 ["phono3py/phonon3/collision_matrix.py", "phono3py/conductivity/direct_solution.py", "c/collision_matrix.c"],
 [("collision matrix", "c/collision_matrix.c"), ("ConductivityLBTE", "phono3py/conductivity/direct_solution.py")],
 ["Phono3py.run_thermal_conductivity(is_LBTE=True)"])
add("C18", "Distributed direct-solution runs reproduce the single run",
 "Writing collision matrix pieces per grid point or band in any partition and reading them back yields the thermal conductivity of the single direct-solution run, and a stored whole collision matrix can be reused with the same result, for all or selected temperatures and with other scattering mechanisms added. The pieces hold the rows of the whole matrix. Missing pieces or pieces at different temperatures never yield a result silently.",
 ["histories", "crash_points", "configurations"], "all partitions, missing files, sigmas, temperatures",
 "Tests do not run distributed direct solutions.",
 ["phono3py/conductivity/direct_solution.py", "phono3py/conductivity/utils.py", "phono3py/file_IO.py"],
 [("set_collision_from_file", "phono3py/conductivity/utils.py")],
 ["Phono3py.run_thermal_conductivity(write_collision/read_collision)"])
add("C19", "Wigner transport result splits into population and coherence parts",
 "Wigner thermal conductivity equals population plus coherence part; the population part equals the ordinary RTA (or direct) value apart from the treatment of degenerate velocities, and the coherence part equals the documented double band sum, symmetric under the point group. Neither part depends on irreducible q-point reduction.",
 ["inputs", "configurations"], "all crystals, meshes, temperatures, methods",
 "Tests record a few numbers for one or two crystals.",
 ["phono3py/conductivity/wigner.py", "phono3py/conductivity/rta.py", "phono3py/phonon/velocity_operator.py"],
 [("ConductivityWignerRTA", "phono3py/conductivity/rta.py")], ["Phono3py.run_thermal_conductivity(conductivity_type='wigner')"])
add("C20", "Isotope and boundary scattering follow their formulas and add up",
 "The isotope linewidth equals the documented double sum with mass variances for tetrahedron and smearing methods, is zero for monoisotopic crystals and linear in the mass variances, and the boundary linewidth is group speed over mean free path as documented. In a conductivity run the lifetimes are those of the sum of ph-ph, isotope and boundary linewidths.",
 ["inputs", "configurations"], "all crystals, mass variances, meshes, grid points, methods",
 "Tests record values of two crystals.",
 ["phono3py/other/isotope.py", "c/isotope.c", "phono3py/conductivity/base.py"],
 [("Isotope", "phono3py/other/isotope.py")], ["Phono3pyIsotope.run", "run_thermal_conductivity(is_isotope, boundary_mfp)"])
add("C21", "Mode Grueneisen parameters equal strain derivatives of frequencies",
 "Mode Grueneisen parameter tensors computed from third-order force constants equal the logarithmic frequency derivative of the strained crystal (with or without internal relaxation), and the mesh, band-path and q-point modes agree with each other and with the files written.",
 ["inputs", "configurations"], "all crystals, q-points, ion-clamped on/off",
 "No test of Grueneisen parameters exists.",
 ["phono3py/phonon3/gruneisen.py"], [("Gruneisen", "phono3py/phonon3/gruneisen.py")], ["Gruneisen", "run_gruneisen_parameters"])
add("C22", "Group velocities and velocity operator are derivatives of the dynamical matrix",
 "Group velocities equal the derivative of frequencies with respect to wave vector for every non-degenerate mode and the degenerate-perturbation values for degenerate ones, with magnitudes per star independent of the symmetry image. The velocity operator is Hermitian with the group velocities on its diagonal.",
 ["inputs", "configurations"], "all crystals, q-points, finite-difference and analytical variants",
 "Tests record matrices at one or two q-points.",
 ["phono3py/phonon/velocity_operator.py", "phono3py/phonon/group_velocity_matrix.py", "phono3py/conductivity/base.py"],
 [("VelocityOperator", "phono3py/phonon/velocity_operator.py")], ["VelocityOperator", "GroupVelocityMatrix", "ConductivityRTA.group_velocities"])
add("C23", "Arrays written to result files are read back unchanged",
 "Every result or force-constant file written is read back to the identical arrays, for every compression setting, layout and file name suffix, and the identifying parts of file names (mesh, grid point, band, sigma, suffix) are injective, so different calculations never overwrite or read each other's files. Reading a file belonging to different force constants layout or mesh is reported and never silently accepted.",
 ["inputs", "configurations"], "all arrays, file name parts and compression settings",
 "Tests read or write two or three files.",
 ["phono3py/file_IO.py"], [("hdf5 writers/readers", "phono3py/file_IO.py")], ["file_IO.write_*", "file_IO.read_*"])
add("C24", "phono3py.yaml round trip preserves the calculation",
 "Saving a calculation to a phono3py yaml file and loading it gives back the same cells, matrices, NAC parameters, and displacement-force data sets within written precision, for every structure and data set type, and results computed from the loaded object are the same. Saving again yields the same content.",
 ["inputs", "histories"], "all crystals, data set types, optional sections",
 "Tests read a few recorded files.",
 ["phono3py/interface/phono3py_yaml.py", "phono3py/cui/load.py", "phono3py/api_phono3py.py"],
 [("Phono3pyYaml", "phono3py/interface/phono3py_yaml.py")], ["Phono3py.save", "phono3py.load"])
add("C25", "Force set files carry displacements and forces faithfully",
 "FORCES_FC3/FORCES_FC2 written from forces of displaced supercells and parsed with their displacement data set return every force on the right displacement, including cutoff pairs and random displacement data sets, and residual forces are subtracted exactly once when requested. Creating force files from calculator outputs by the command gives the same result as the API, and inconsistent numbers of files or forces are refused.",
 ["inputs", "configurations"], "all data sets, cutoffs, options",
 "Tests parse one or two recorded files.",
 ["phono3py/file_IO.py", "phono3py/cui/create_force_sets.py", "phono3py/phonon3/dataset.py"],
 [("write/parse FORCES_FC3", "phono3py/file_IO.py")], ["write_FORCES_FC3", "parse_FORCES_FC3", "phono3py --cf3/--cf2"])
add("C26", "Configuration file tags and command-line options are equivalent",
 "Every setting given as configuration tag yields the same settings as its command-line option, an option given on the command line takes precedence over the file, unrelated settings stay at their defaults, and malformed values are refused.",
 ["inputs", "configurations"], "all combinations of options/tags and values",
 "No test covers the parser.",
 ["phono3py/cui/settings.py", "phono3py/cui/phono3py_argparse.py"],
 [("Phono3pyConfParser", "phono3py/cui/settings.py")], ["Phono3pyConfParser settings"])
add("C27", "Cumulative spectra are monotone integrals ending at the total",
 "Cumulative thermal conductivity, mean-free-path accumulation and spectral DOS-like quantities are the tetrahedron-weighted sums of the mode values: the cumulative curve ends at the total over modes, its derivative is the spectrum, and it ends at the same total using irreducible or all q-points. The post-processing command reports the same numbers as the library.",
 ["inputs", "configurations"], "all crystals, meshes, mode arrays and sampling points",
 "Tests record curves of two crystals.",
 ["phono3py/other/kaccum.py", "phono3py/cui/kaccum_script.py", "phono3py/other/tetrahedron_method.py"],
 [("KappaDOSTHM", "phono3py/other/kaccum.py")], ["KappaDOSTHM", "phono3py-kaccum"])
add("C28", "Results do not depend on the number of threads",
 "All results of parallel kernels are the same for any number of OpenMP threads and on repetition, up to floating-point summation order.",
 ["schedules", "configurations"], "all thread counts and interleavings reachable by them",
 "Tests run with the default thread count only and with loose tolerances.",
 ["c/interaction.c", "c/imag_self_energy_with_g.c", "c/collision_matrix.c", "c/pp_collision.c", "c/triplet_iw.c", "c/fc3.c"],
 [("OpenMP parallel loops over private data", "c/*.c")], ["Phono3py results under OMP_NUM_THREADS"])
add("C29", "Compiled kernels never access memory out of bounds",
 "For every accepted input the compiled kernels neither read nor write outside the arrays given to them, use no uninitialized or freed memory and perform no undefined arithmetic.",
 ["inputs", "configurations"], "all crystals, meshes, band subsets, layouts and options accepted by the API",
 "Tests run uninstrumented builds, where out-of-bounds access goes unnoticed.",
 ["c/"], [("pointer arithmetic on flat arrays", "c/*.c")], ["AddressSanitizer/UBSan build of the extension modules"])
add("C30", "Results depend on the current settings, not on the history of calls",
 "Any sequence of setting mesh, sigmas, band indices, NAC, force constants, phonons and of running calculations on one object gives, at every step, the same result as a fresh object given the final settings; inputs passed in are not modified, and failed calls leave the object usable.",
 ["histories"], "all sequences of API operations",
 "Tests use each object for a single linear sequence.",
 ["phono3py/api_phono3py.py", "phono3py/phonon3/interaction.py"],
 [("reset of cached interaction/phonons in setters", "phono3py/api_phono3py.py")], ["Phono3py public methods"])
add("C31", "Inconsistent input is refused instead of producing numbers",
 "Force constants, data sets, supplied phonons, grids, meshes, band indices or restart data that are inconsistent with the structure or calculation are refused with an error and never silently used.",
 ["inputs", "fault_sequences"], "all single inconsistencies of documented inputs",
 "Tests check one or two error paths.",
 ["phono3py/api_phono3py.py", "phono3py/phonon3/interaction.py", "phono3py/phonon/grid.py", "phono3py/file_IO.py"],
 [("shape and consistency checks", "phono3py/api_phono3py.py")], ["exceptions raised by the API"])
add("C32", "The command-line program computes what the API computes",
 "Running the command-line workflow (create displacements, collect forces, force constants, grid-point properties, conductivity) writes files whose numbers equal those of the same calculation by the API, for every supported combination of options, and the recorded settings in its yaml output reproduce the run.",
 ["inputs", "configurations"], "all crystals and option combinations",
 "Tests run the command on one crystal with few options and mostly check that it exits.",
 ["phono3py/cui/phono3py_script.py", "phono3py/cui/load.py", "phono3py/cui/create_force_constants.py", "phono3py/cui/create_supercells.py"],
 [("main", "phono3py/cui/phono3py_script.py")], ["phono3py, phono3py-load commands", "kappa-*.hdf5, fc*.hdf5, *.dat"])
add("C34", "The stand-alone grid library agrees with the definition of the grids",
 "The public C interface of the grid library (grid addresses, indices, rotations, BZ relocation, irreducible maps, Smith normal form, triplets, Niggli reduction, integration weights) returns for any input what the definitions of these quantities require, and reports failure by its return value.",
 ["inputs"], "all lattices, grid matrices and rotations",
 "C unit tests (not run by the Python tests) cover a few fixed lattices.",
 ["c/gridsys.c", "c/gridsys.h", "c/niggli.c"], [("gridsys_* functions", "c/gridsys.c")], ["gridsys.h functions"])
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
