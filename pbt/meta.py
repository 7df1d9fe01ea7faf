"""Registered checks: case counts, rules and texts."""
CHECKS = {}


def _c(prop, quick, thorough, rule, technique, note, **kw):
    CHECKS[prop] = dict(quick=quick, thorough=thorough, rule=rule, technique=technique, note=note, **kw)


_c("C01", 6000, 150000,
   "Hypothesis draws a lattice (23 crystal templates x basis change x rotation, or random skewed lattices) and a grid "
   "specification (mesh, length, generalized grid, grid matrix, half shifts, dense/sparse layout); non-trivial: more "
   "than one point and at least one point on the Brillouin zone boundary",
   "property-based testing against exact integer/brute-force reference",
   "Search, not proof: random lattices and meshes up to ~900 points; images whose squared length lies within the "
   "code's own boundary tolerance of the shortest are accepted either way.")

_c("C02", 3000, 80000,
   "Hypothesis draws a crystal (23 templates x basis change x rotation x origin) and grid specification (mesh, length, "
   "generalized grid, half shift, time reversal on/off, symmetry on/off); non-trivial: at least two orbits and at least "
   "one orbit with several points, or a refused grid (whose refusal is verified)",
   "property-based testing against orbit enumeration",
   "Search over random crystals and meshes up to ~900 points; the point group itself is taken from spglib.")

_c("C03", 3000, 60000,
   "Hypothesis draws a lattice, grid (mesh, length, generalized grid; dense/sparse layout), any BZ grid point (including "
   "surface images), swap, time-reversal and mesh-symmetry switches; non-trivial: symmetry reduces the triplets to more "
   "than one class",
   "property-based testing against exhaustive pair enumeration",
   "Search over random grids up to 400 points; orbits are enumerated exhaustively per case.")

_c("C04", 2400, 40000,
   "Hypothesis draws lattice, mesh/generalized grid, band values (random, tied, smooth, flat), sampling points, I/J, "
   "grid-point subsets and index maps; or triplets at a point with tetrahedron/smearing, cutoff, collision weights; "
   "non-trivial: more than one grid point and a non-zero weight",
   "property-based testing against simplex-spline integrals",
   "Search; sampling points within 1e-6 of a vertex value are not judged (the weights are discontinuous there).")

_c("C05", 1200, 20000,
   "Hypothesis draws a crystal (templates x views, also with imaginary modes), separate phonon supercell, grid, NAC "
   "(none/Wang/Gonze, q-direction), full/compact force constants, LAPACK variant, frequency factors and a sequence of "
   "solver calls; after each call every solved point is judged; non-trivial: more than one grid point solved",
   "stateful property-based testing against independent dynamical matrices",
   "Search. Dynamical matrices are recomputed by an independent implementation; for Gonze NAC by phonopy's class.",
   also_build=["lapacke"])

_c("C06", 600, 8000,
   "Hypothesis draws a crystal, (non-diagonal) supercell, separate phonon supercell, symmetry on/off, distance, plus-minus "
   "and diagonal options, pair cutoff, or number/seed/amplitude of random displacements, and whether data sets replace "
   "older ones; non-trivial: more than two displaced supercells",
   "property-based testing against group-theoretic completeness",
   "Search over supercells up to 18 atoms; the space group of the supercell is taken from spglib.")

_c("C07", 900, 12000,
   "Hypothesis draws a crystal, supercell (diagonal or not), separate phonon supercell, displacement options, symmetry "
   "on/off, layout and one of: finite differences of a cubic Taylor force field (exact), pair cutoff with junk forces for "
   "excluded pairs, symfc from random or systematic displacements, step-halving on the anharmonic force field, "
   "cutoff_fc3_by_zero; non-trivial: more than one atom and, with cutoff, something cut",
   "property-based testing against a force field with exact derivatives",
   "Search over supercells up to 12 atoms. ALM is not installed, so only the traditional and symfc calculators run.")

_c("C08", 600, 9000,
   "Hypothesis draws a crystal, (non-diagonal) supercell and one of: arbitrary, sparse, permutation-symmetric or exact "
   "translation-invariant fc arrays put through a symmetrizer (function or API) or the drift report in both layouts; noisy "
   "finite-difference products with/without symmetrization; a later calculation (phonons, ph-ph strength, linewidth, real "
   "self-energy, RTA, direct solution, Grueneisen, JDOS) from both layouts; non-trivial: the supercell has more atoms than "
   "the primitive cell",
   "property-based testing: reference symmetrizers and layout differential",
   "Search over supercells up to 12 atoms.")

_c("C09", 900, 14000,
   "Hypothesis draws a crystal (templates x views, imaginary modes too), separate phonon supercell, grid, grid point and "
   "options: mesh symmetry, layout, r0 average, symmetrized transform, openmp order, language, cutoff frequency, NAC "
   "direction, scale factor, constant value, band subset in any order, zeroed pairs, skip mask, exact or random fc3, "
   "solved or supplied random phonons; non-trivial: at least two non-zero strengths were compared",
   "property-based testing against direct Fourier sum",
   "Search; up to 6 triplets per case are compared; strengths of modes within 1e-6 THz of the cutoff are not judged.")

_c("C11", 700, 12000,
   "Hypothesis draws a crystal, grid, 1-3 grid points, temperatures (with 0), tetrahedron/smearing (with cut-off), cutoff "
   "frequency, band subset, r0 average, symmetrized transform, layout, NAC, constant strength, event class, detail, "
   "frequency points (given/number/step, batches) or bands, and the route: API, RTA (low-memory or stored strengths, N/U) "
   "or the self-energy object (C or Python); non-trivial: a non-zero linewidth was compared",
   "property-based testing against golden-rule sum",
   "Search; up to 250 triplets per case. Tetrahedron weights are taken from the function that C04 checks.")

_c("C12", 700, 12000,
   "Hypothesis draws crystal, grid, grid points, temperatures, epsilons, cutoff, band subsets/groups, layout, NAC and the "
   "route: real self-energy at bands or points (API, C or Python object), spectral function (sigmas, frequency points, "
   "batches, log level, written files), or analytic Kramers-Kronig pairs (Gaussian peaks); non-trivial: a non-zero value "
   "was compared",
   "property-based testing against principal-value sum and analytic Kramers-Kronig pairs",
   "Search; up to 250 triplets per case; quotients within 1e-4 of a pole of the spectral function are not judged.")

_c("C13", 700, 12000,
   "Hypothesis draws crystal, grid, grid points, symmetry use, temperatures, sigmas or tetrahedra, cutoff, NAC with and "
   "without direction, frequency sampling, batches, scale, file writing, repeated runs; non-trivial: a non-zero joint DOS "
   "was compared",
   "property-based testing against a sum over all pairs from an independent phonon model",
   "Search; grids up to 220 points. Tetrahedron weights are taken from the library here and judged by C04.")

_c("C14", 450, 8000,
   "Hypothesis draws crystal, grid, temperatures, sigmas, cutoffs, symmetry switches, NAC, isotope and boundary scattering, "
   "and a second route (star on/off, no symmetry, full strengths, N/U, detail, subsets); non-trivial: a non-zero mode kappa "
   "with more than one grid point was compared",
   "property-based testing against the documented mode sum and metamorphic routes",
   "Search; mode kappa of reported linewidths; linewidths themselves are C11. Velocities of degenerate bands are compared "
   "only where symmetry defines them; stars only with smearing (tetrahedra break symmetry).")

_c("C15", 500, 9000,
   "Hypothesis draws a crystal with its base description and a second one: rotated, origin-shifted, atoms permuted or "
   "wrapped, unimodular basis change, conventional cell with primitive matrix, supercell given as unit cell, symmetry or "
   "mesh symmetry off, other fc layout; plus isotropic/regular/generalized grid, sigma, cutoff, temperatures, grid points, "
   "event class, isotope scattering; non-trivial: non-zero strengths, linewidths or kappa were compared",
   "property-based metamorphic testing of redescribed crystals",
   "Search; grids up to 36 points. Tetrahedra depend on the basis, so linewidths and kappa are compared for smearing only; "
   "kappa is not compared where velocities of degenerate bands are ambiguous.")

_c("C16", 360, 6000,
   "Hypothesis draws crystal, grid, temperatures, 1-3 sigmas (with cut-off), standard/Wigner/Kubo type, isotope and boundary "
   "scattering, N/U, full or constant interaction, symmetry switches, and a schedule: partition and order of grid points, "
   "band groups and sigmas over jobs on fresh or reused objects, compression, file name, then collection, removal of a file, "
   "other temperatures, other scattering mechanisms, detail files, stored strengths, averaged interaction; non-trivial: "
   "non-zero linewidths at more than one grid point",
   "property-based testing: schedule of jobs against one run",
   "Search; grids up to 40 points. Band groups of a job do not divide degenerate sets (linewidths are averaged within a "
   "job); linewidths themselves are C11 and C14.")

_c("C17", 900, 12000,
   "Hypothesis draws crystal, grid, temperatures, 1-2 sigmas (with cut-off), cutoff frequency, irreducible or reducible matrix, "
   "symmetry and star switches, isotope and boundary scattering, solver, pseudo-inverse method and one of the widest gaps of "
   "the spectrum as cutoff; non-trivial: a non-zero collision matrix or RTA conductivity was compared",
   "property-based testing: dense reference on the whole grid without symmetry",
   "Search; at most 500 modes. Matrix elements with mesh symmetry and the solution are compared with smearing only "
   "(tetrahedra are not symmetric); the solution only where the estimated numerical error is below 5 per cent. Solvers "
   "that need LAPACKE are not built.")
_c("C18", 700, 10000,
   "Hypothesis draws crystal, grid, 1-3 temperatures, 1-2 sigmas, symmetry and star switches, irreducible or reducible matrix, "
   "conductivity type, isotope and boundary scattering, a partition of grid points into jobs and of bands into groups, order "
   "of jobs, job-wise sigmas, order of sigmas and temperature indices at reading, a removed or foreign piece; non-trivial: "
   "more than one grid point and a non-zero matrix",
   "property-based testing over partitions, histories and removed files: differential against one run",
   "Search; at most 300 modes. Solutions are compared when the cutoff of eigenvalues lies in a gap. Files on the same "
   "file system; no concurrent writers to one file.")


_c("C19", 600, 8000,
   "Hypothesis draws crystal, grid, temperatures, smearing or tetrahedra, isotope and boundary scattering, symmetry and star "
   "switches, NAC, finite-difference step of velocities, conductivity type and a twin run; non-trivial: a non-zero coherence "
   "term",
   "property-based testing: independent velocity operators and sums of the Wigner formula, metamorphic twins (stars off, "
   "direct solution, reordered settings)",
   "Search; at most 500 modes. The Kubo variant (undocumented) is left out. Acoustic modes at Gamma and imaginary modes are "
   "excluded from comparisons of velocities.")

_c("C20", 900, 15000,
   "Hypothesis draws crystal, grid, phonon supercell, bands, cutoff, smearing widths and tetrahedra, mass variances, isotope "
   "tables, NAC, frequency scale and factor, C or Python route, and conductivity runs (RTA and direct, irreducible and "
   "reducible) with isotope and boundary scattering; non-trivial: a non-zero linewidth on more than one grid point",
   "property-based testing: independent golden-rule sums over an independent phonon spectrum, linearity, differential runs",
   "Search; at most 220 grid points. With tetrahedra, values at which a face of a tetrahedron carries the very frequency "
   "are not compared (rounding decides there).")

_c("C21", 700, 10000,
   "Hypothesis draws crystal, supercell (also not symmetric), force field with or without instabilities, full or compact force "
   "constants, ion-clamped or relaxed, NAC and direction, q-points, paths, meshes with and without symmetry, file name; "
   "non-trivial: a non-zero strain derivative",
   "property-based testing: derivatives of the analytically strained and relaxed crystal by finite difference, independent "
   "sums over third-order force constants, read-back of files",
   "Search; at most 64 atoms. Derivatives by strain need interactions shorter than half the supercell; elsewhere the defining "
   "sum is the oracle. Degenerate modes are compared by their averages.")

_c("C22", 1500, 25000,
   "Hypothesis draws crystal, q-points (general and special) or grid, NAC, finite-difference step, perturbation direction, "
   "cutoff frequency, bands, symmetry and star switches, temperatures for heat-capacity matrices; non-trivial: a velocity "
   "above 0.01 THz Angstrom",
   "property-based testing: independent derivatives of an independent dynamical matrix, degenerate perturbation theory",
   "Search. At Gamma with NAC and for nearly degenerate modes nothing is compared. Symmetrised off-diagonal elements of "
   "the undocumented Kubo variant are left out; degenerate sets are compared by gauge-invariant sums.")

_c("C23", 2500, 60000,
   "Hypothesis draws sequences of writes of every kind of result file (meshes, grid points, band sets, smearing widths, cutoffs, "
   "temperatures, epsilons, names, array shapes with special values, compression, layouts, dense and partial pp) followed by "
   "reads of all files; non-trivial: more than one file is written and read back",
   "property-based testing, model-based: a dictionary from parameters to arrays is the model; every file name must belong to "
   "one entry and every reader must return that entry",
   "Search over sequences of at most 12 writes. Texts are compared to written precision.")

_c("C25", 1500, 40000,
   "Hypothesis draws crystal, supercells (also for fc2), systematic displacements with or without cutoff or random ones, "
   "calculator (VASP, QE, LAMMPS outputs are generated), residual forces, route (command, file list, API), yaml or "
   "FORCES_FCx, conversion to FORCE_SETS, wrong numbers, order or contents of files; non-trivial: more than one force set, or a "
   "refusal",
   "property-based testing: forces generated per displaced supercell are traced through output files, the command and the "
   "loader back to the same displaced supercell",
   "Search; at most 400 displaced supercells. Formats of other calculators are phonopy's and left out.")

_c("C27", 1400, 25000,
   "Hypothesis draws grids, mode arrays (random, smooth, with ties, constant, negative), sampling points, irreducible or all "
   "points, smearing widths for the library; crystals, conductivity runs and command options for the script; non-trivial: "
   "a spectrum that is not empty",
   "property-based testing: independent sums over verified tetrahedra, totals over modes, output of the command against the "
   "same sums from the written file",
   "Search; at most 80 grid points. Sampling points which coincide with values at vertices are not compared except the last.")

_c("C24", 1200, 20000,
   "Hypothesis draws crystal (masses, magnetic moments, extended symbols, coordinates outside the cell), supercell and "
   "primitive matrices, data set type, cutoff, phonon supercell, calculator unit system, NAC method and factor, save "
   "settings, compressed or plain file, history (generate, set forces, save, load, save again); non-trivial: forces "
   "are stored and come back",
   "property-based testing: save - load - save round trip against the object, force constants computed from both",
   "Search; at most 16 unit-cell copies. Symmetry settings and force constants are not stored in the file and so not part.")

_c("C30", 550, 8000,
   "Hypothesis draws crystal, settings and sequences of setting changes (mesh, smearing widths, cutoff, bands, NAC, force "
   "constants, masses, direction, phonons), initializations, calculations and refused calls; non-trivial: at least one "
   "calculation after three or more operations",
   "property-based testing, stateful: after every calculation of the history a new object of the current settings repeats it; "
   "objects passed in are compared with copies",
   "Search over sequences of at most 15 operations and meshes of at most 27 points. Settings count from the next "
   "initialization as documented; smearing widths, cutoff and NAC parameters at once.")

NA = {}
