"""Write /verif/properties.jsonl (the text of the properties is kept here)."""
import json
from pathlib import Path

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or []},
    })


p("C01", "The reciprocal grid is complete and its Brillouin-zone points are shortest",
  "For every lattice, mesh and half-grid shift, each grid point of the regular grid is listed exactly once (or, on the zone surface, once for each of its equivalent shortest images) and every listed address is a shortest vector modulo the reciprocal lattice. "
  "The maps between the regular-grid numbering and the zone-grid numbering are mutually consistent for both storage conventions. "
  "Looking up the index of any integer address gives the grid point congruent with it, also for negative and far-away addresses.",
  ["inputs", "configurations"],
  "all lattices (any symmetry, skew cells included), all meshes including 1, odd, even and mixed, all half shifts, both storage conventions, all integer addresses",
  "tests compare stored index tables of three crystals on a handful of meshes; skewed lattices, ties on zone surfaces and mixed parities are not sampled",
  ["phono3py/phonon/grid.py", "c/bzgrid.c", "c/grgrid.c", "c/recgrid.c"],
  [("search of shortest images", "c/bzgrid.c"), ("address <-> index", "c/grgrid.c"), ("BZGrid maps", "phono3py/phonon/grid.py")],
  ["BZGrid.addresses", "BZGrid.gp_map", "BZGrid.bzg2grg", "BZGrid.grg2bzg"])

p("C02", "Irreducible grid points represent the whole grid exactly once",
  "The grid points are partitioned into the orbits of the crystal's reciprocal point group (with time reversal where it applies): every point maps to one representative of its orbit and the weights are the orbit sizes and sum up to the number of grid points. "
  "Rotating a grid point by an operation of the group gives the index of the rotated q-point. "
  "The group used consists of exactly the crystal's point operations that leave the grid invariant, or the grid is refused.",
  ["inputs", "configurations"],
  "all crystals (every point group, symmorphic or not), all meshes and grid definitions invariant under the group, with and without time reversal",
  "tests look at numbers of irreducible points of a few cubic/hexagonal crystals; the orbit property must hold for each crystal class, mesh and point",
  ["phono3py/phonon/grid.py", "c/grgrid.c", "c/recgrid.c"],
  [("orbit table", "phono3py/phonon/grid.py get_ir_grid_points"), ("rotations of grid points", "phono3py/phonon/grid.py get_grid_points_by_rotations"), ("rotations in grid basis", "c/grgrid.c")],
  ["get_ir_grid_points", "get_grid_points_by_rotations", "BZGrid.rotations"])

p("C03", "Generalized grids and Smith normal forms are exact",
  "The Smith-normal-form decomposition of any non-singular integer matrix returns a diagonal matrix with each entry dividing the next and unimodular transformations that reproduce it exactly. "
  "A grid given by a matrix contains exactly the points of the lattice it defines, each once, whichever way the grid is requested (mesh numbers, length, or symmetry-adapted matrix). "
  "A symmetry-adapted grid is invariant under all the crystal's point operations.",
  ["inputs"],
  "all non-singular 3x3 integer matrices; all crystals and meshes or mesh lengths; conventional-cell-based grids of centred lattices",
  "tests decompose random matrices and check a few crystals; degenerate shapes (negative determinant, permutation, gcd chains) need enumeration",
  ["c/snf3x3.c", "phono3py/phonon/grid.py", "c/lagrid.c"],
  [("SNF3x3", "c/snf3x3.c"), ("GridMatrix", "phono3py/phonon/grid.py"), ("integer matrix algebra", "c/lagrid.c")],
  ["SNF results", "BZGrid with generalized grid"])

p("C04", "Triplet lists of a grid point are complete, disjoint and weighted right",
  "For every grid point the listed phonon triplets fulfil q+q'+q''=G, cover all pairs (q',q'') of the grid exactly once when expanded by the symmetry of q and the exchange of q' and q'', and their weights are the sizes of these classes. "
  "Zone images are chosen so that G is zero whenever images exist for which it is (normal process), and the choice depends on nothing but the grid and the point. "
  "Switching symmetry or exchange off yields the full list with unit weights.",
  ["inputs", "configurations"],
  "all crystals, meshes, grid points (zone boundary included), symmetry on/off, time reversal on/off, swapping on/off, both grid conventions",
  "tests compare triplet counts for few crystals and points; completeness is a statement on every grid point and mesh",
  ["phono3py/phonon3/triplets.py", "c/triplet.c", "c/triplet_grid.c", "c/phono3py.c"],
  [("triplets at q", "c/triplet_grid.c"), ("get_triplets_at_q", "phono3py/phonon3/triplets.py")],
  ["get_triplets_at_q", "get_nosym_triplets_at_q"])

p("C05", "Integration weights equal the exact tetrahedron or Gaussian weights",
  "The weights of the phonon triplets in the energy-conservation delta functions equal those of the linear tetrahedron method evaluated with the exact dispersion at neighbouring points (with the main-diagonal choice of shortest diagonal), or the Gaussian function of the given width. "
  "They sum to one over frequency, do not depend on how the triplets or frequencies are batched or on how bands are selected, and a triplet whose weights are flagged zero has zero weights. (A frequency exactly on a vertex of a tetrahedron takes the limit from one side.)",
  ["inputs", "configurations"],
  "all grids, grid points, frequency points, band selections, smearing widths and cutoffs; both storage conventions",
  "tests look at the final lifetimes within 0.5 % for few points; band- and triplet-resolved weights are never compared with an independent evaluation",
  ["phono3py/phonon3/triplets.py", "c/triplet_iw.c", "c/tetrahedron_method.c", "phono3py/other/tetrahedron_method.py"],
  [("integration weights", "c/triplet_iw.c"), ("tetrahedron formulae", "c/tetrahedron_method.c"), ("relative addresses", "c/tetrahedron_method.c")],
  ["get_triplets_integration_weights", "get_integration_weights", "TetrahedronMethod"])

p("C06", "Harmonic phonons on the grid are the eigenmodes of the dynamical matrix",
  "Each grid point that has been asked for holds frequencies and orthonormal eigenvectors that diagonalise the dynamical matrix of that q-point, with the non-analytical term and its direction where given. "
  "The result does not depend on the order in which grid points were requested, on how requests were split or repeated, nor on which points were solved by symmetry. "
  "Degenerate frequencies related by symmetry are equal.",
  ["histories", "inputs", "configurations"],
  "all crystals, grids, sequences of requests over subsets of grid points, NAC methods and directions, solvers",
  "tests run one fixed sequence (all points or one point), never different orders, repeated or partial requests",
  ["phono3py/phonon/solver.py", "c/phonon.c", "c/dynmat.c", "c/lapack_wrapper.c", "phono3py/phonon3/interaction.py", "phono3py/phonon3/joint_dos.py"],
  [("phonon solver", "c/phonon.c"), ("dynamical matrix", "c/dynmat.c"), ("phonon_done bookkeeping", "phono3py/phonon3/interaction.py")],
  ["Interaction.get_phonons", "Phono3py.get_phonon_data"])

p("C07", "Phonon-phonon interaction strengths follow from fc3 and the eigenmodes",
  "The squared interaction strength of any three modes equals the projection of the Fourier transform of the third-order force constants on their eigenvectors divided by masses and frequencies, summed over degenerate sets. "
  "It is the same for compact and full force constants, for either parallelisation mode, for a subset of bands as for all bands, and with symmetrisation over the three phonons it is the permutation average. "
  "Modes below the cutoff frequency and triplets skipped for zero weight contribute zero.",
  ["inputs", "configurations"],
  "all crystals and supercells, grid points, triplets, band subsets, storage forms of fc3, skip masks, cutoffs, NAC",
  "tests compare sums over everything with stored numbers for one or two crystals and never with an independent evaluation, nor option by option",
  ["phono3py/phonon3/interaction.py", "phono3py/phonon3/real_to_reciprocal.py", "phono3py/phonon3/reciprocal_to_normal.py", "c/interaction.c", "c/real_to_reciprocal.c", "c/reciprocal_to_normal.c"],
  [("real to reciprocal", "c/real_to_reciprocal.c"), ("reciprocal to normal", "c/reciprocal_to_normal.c"), ("interaction strength", "c/interaction.c")],
  ["Interaction.interaction_strength", "Interaction.get_averaged_interaction"])

p("C08", "Imaginary self-energy is one quantity whichever way it is computed",
  "The phonon linewidth equals the golden-rule sum over triplets of interaction strength, occupation factors and delta functions. "
  "The value is independent of the route: stored or on-the-fly interaction strengths, with or without triplet-resolved output, per band or at sampled frequencies in any batch size, one or several smearing widths or temperatures in a run. "
  "Triplet-resolved parts and normal/umklapp parts add up to the total.",
  ["inputs", "configurations", "histories"],
  "all crystals, grid points, temperatures (0 K included), smearing widths and orders, frequency samplings, batch sizes, band subsets, full/low-memory routes",
  "tests compare a few totals with stored numbers at 0.5-1 % and only one route each; agreement of routes for all options and lists is not exercised",
  ["phono3py/phonon3/imag_self_energy.py", "c/imag_self_energy_with_g.c", "c/pp_collision.c", "phono3py/conductivity/utils.py"],
  [("sum over triplets", "c/imag_self_energy_with_g.c"), ("low memory route", "c/pp_collision.c"), ("driver", "phono3py/phonon3/imag_self_energy.py")],
  ["run_imag_self_energy", "ImagSelfEnergy", "conductivity gamma"])

p("C09", "Frequency shifts and spectral functions follow from the self-energy",
  "The real part of the self-energy equals the principal-value sum over triplets with the given broadening, and is independent of the route, of the frequency batches and of the order of temperatures and broadenings. "
  "The spectral function equals the expression of the computed real and imaginary parts, and the shift is consistent with it at each frequency point.",
  ["inputs", "configurations"],
  "all crystals, grid points, band subsets, temperatures, broadenings, frequency samplings",
  "tests compare stored numbers for one crystal per feature",
  ["phono3py/phonon3/real_self_energy.py", "phono3py/phonon3/spectral_function.py", "c/real_self_energy.c"],
  [("real self energy", "c/real_self_energy.c"), ("spectral function", "phono3py/phonon3/spectral_function.py")],
  ["run_real_self_energy", "run_spectral_function"])

p("C10", "The joint density of states counts each pair of phonons once",
  "The joint densities of states are the sums over all pairs (q',q'') with q+q'+q''=G of delta functions of frequency sums and differences, weighted by occupation factors when temperatures are given. "
  "The result is independent of symmetry reduction (in the tetrahedron method, which has not the symmetry of the crystal, it is the weighted sum over the listed triplets), of frequency batching, and of previous runs of the same object, and the files hold all of it.",
  ["inputs", "configurations", "histories"],
  "all crystals, meshes, grid points, smearing widths, temperatures, frequency samplings, sequences of runs",
  "tests compare stored numbers for two crystals",
  ["phono3py/phonon3/joint_dos.py", "phono3py/api_jointdos.py"],
  [("joint DOS", "phono3py/phonon3/joint_dos.py"), ("API", "phono3py/api_jointdos.py")],
  ["Phono3pyJointDos.joint_dos"])

p("C11", "Isotope scattering rates equal the mass-disorder formula",
  "The isotope scattering rate of every mode equals the mass-variance-weighted sum over all modes of the same frequency and of eigenvector overlaps, in the tetrahedron and the Gaussian method. "
  "It is the same in the compiled and the reference implementation, for the whole set of bands and for any subset, and scales linearly with the mass variances.",
  ["inputs", "configurations"],
  "all crystals, meshes, grid points, bands, mass variances, smearing widths",
  "tests compare stored numbers for two crystals",
  ["phono3py/other/isotope.py", "c/isotope.c", "phono3py/api_isotope.py"],
  [("isotope strength", "c/isotope.c"), ("Isotope", "phono3py/other/isotope.py")],
  ["Isotope.gamma", "Phono3pyIsotope.gamma"])

p("C12", "RTA thermal conductivity is the mode sum over the whole zone",
  "The lattice thermal conductivity in the relaxation-time approximation equals the sum over all modes of the full grid of heat capacity, group-velocity outer product and lifetime, with the sum of all scattering mechanisms, at each temperature and smearing width. "
  "The sum over stars of irreducible points equals the sum over all points wherever velocities of degenerate modes are well defined, does not depend on order, partition or representatives of the grid points, and obeys the crystal's point symmetry.",
  ["inputs", "configurations", "histories"],
  "all crystals, meshes and grids, temperature and smearing lists, isotope and boundary scattering, average or full interaction, mean-free-path-free cutoffs, grid-point subsets",
  "tests compare stored kappa values of three crystals at 300 K",
  ["phono3py/conductivity/base.py", "phono3py/conductivity/rta.py"],
  [("mode kappa", "phono3py/conductivity/rta.py"), ("group velocities and stars", "phono3py/conductivity/base.py")],
  ["ConductivityRTA.kappa", "ConductivityRTA.mode_kappa"])

p("C13", "The linearised Boltzmann equation is solved with the exact collision matrix",
  "The collision matrix is symmetric, its elements are those of the golden rule over triplets, and it commutes with the point group: symmetry-reduced and full treatments give the same conductivity (with Gaussian smearing, averaged over sets of degenerate modes). "
  "The direct solution equals minus the pseudo-inverse of the collision matrix applied to the heat-flow vector, whichever solver or method of inversion is chosen, and its diagonal part reproduces the relaxation-time approximation.",
  ["inputs", "configurations"],
  "all crystals, meshes, temperatures, smearing widths, pseudo-inverse solvers and methods, reducible or irreducible matrices",
  "tests compare stored kappa values of two crystals",
  ["phono3py/conductivity/direct_solution.py", "phono3py/phonon3/collision_matrix.py", "c/collision_matrix.c"],
  [("collision matrix", "c/collision_matrix.c"), ("direct solution", "phono3py/conductivity/direct_solution.py")],
  ["ConductivityLBTE.kappa", "ConductivityLBTE.collision_matrix"])

p("C14", "Coherence contributions extend the particle-like conductivity consistently",
  "In the Wigner formulation the populations term of a nondegenerate mode equals its conventional relaxation-time contribution (and the populations of the direct solution the conventional direct solution), and populations and coherences of every pair of sets of degenerate modes are the sums of the velocity-operator expression over the arms of the star; totals are the sums of both, over the whole zone. "
  "In the Kubo formulation every pair of sets of degenerate modes contributes the product of group-velocity matrices, heat-capacity matrix and Lorentzian. "
  "Velocity operators and group-velocity matrices are Hermitian and are those of the derivative of the dynamical matrix, whether or not symmetry is used, and heat-capacity matrices reduce to their diagonal counterparts. "
  "Contributions of modes that are skipped by the frequency cutoff never remove those of other modes.",
  ["inputs", "configurations"],
  "all crystals, meshes, temperatures, smearing widths, both formulations",
  "tests compare stored numbers for two crystals",
  ["phono3py/conductivity/wigner.py", "phono3py/conductivity/kubo.py", "phono3py/phonon/velocity_operator.py", "phono3py/phonon/group_velocity_matrix.py", "phono3py/phonon/heat_capacity_matrix.py"],
  [("Wigner", "phono3py/conductivity/wigner.py"), ("Kubo", "phono3py/conductivity/kubo.py"), ("velocity operator", "phono3py/phonon/velocity_operator.py")],
  ["kappa_TOT_RTA", "kappa_C", "velocity_operators"])

p("C15", "Accumulated properties integrate to the total",
  "The cumulative conductivity with respect to frequency or mean free path rises from zero to the total conductivity and its derivative integrates to it, per direction, temperature and mode-resolved part. "
  "Densities of states and property spectra equal the weighted sums over the whole zone in the selected integration method with the parameters given.",
  ["inputs", "configurations"],
  "all crystals, meshes, property arrays, numbers of sampling points, tetrahedron and smearing methods",
  "tests compare stored arrays of one or two crystals",
  ["phono3py/other/kaccum.py", "phono3py/cui/kaccum_script.py", "c/tetrahedron_method.c"],
  [("KappaDOS", "phono3py/other/kaccum.py"), ("script", "phono3py/cui/kaccum_script.py")],
  ["KappaDOSTHM", "GammaDOSsmearing", "run_prop_dos"])

p("C16", "Force-constant symmetrisation enforces exactly the declared symmetries",
  "After symmetrisation the third-order force constants are invariant under all permutations of atom-direction pairs and their sums over any atom index vanish, as the second-order ones under exchange, both in full and compact form and with the same result in both. "
  "Symmetrising force constants which already obey the symmetries, or twice, changes nothing. "
  "Other arguments and the caller's arrays of displacements and forces stay untouched.",
  ["inputs", "configurations", "histories"],
  "all force constants (also with drift and broken permutation), all crystals and supercells, compact and full, order of operations",
  "tests look at two crystals' produced force constants",
  ["phono3py/phonon3/fc3.py", "c/fc3.c", "phono3py/api_phono3py.py"],
  [("index permutation", "c/fc3.c"), ("drift removal", "phono3py/phonon3/fc3.py")],
  ["Phono3py.fc3", "set_permutation_symmetry_fc3", "set_translational_invariance_fc3"])

p("C17", "Force constants are recovered from displacement-force data",
  "When forces come from a harmonic-plus-cubic model, the force constants obtained from the generated displacement data reproduce the model within the order of the finite displacement, in full and compact form alike. "
  "They obey the space-group symmetry, and the result is independent of the order of displaced configurations, of the representation of the dataset, and of the numbering of the atoms. "
  "A cutoff distance only sets elements to zero beyond it.",
  ["inputs", "configurations"],
  "all crystals and supercells, displacement options (diagonal, plus-minus, distance), cutoff pair distances, full or compact, both generations of datasets",
  "tests compare stored force constants of few crystals",
  ["phono3py/phonon3/fc3.py", "phono3py/phonon3/dataset.py", "phono3py/interface/fc_calculator.py", "c/fc3.c", "phono3py/api_phono3py.py"],
  [("fc3 solver", "phono3py/phonon3/fc3.py"), ("distribution of fc3", "c/fc3.c"), ("symfc interface", "phono3py/interface/fc_calculator.py")],
  ["Phono3py.produce_fc3", "Phono3py.fc2", "Phono3py.fc3"])

p("C18", "Generated displacements determine all force constants and obey the options",
  "The set of displaced supercells spans, under the symmetry operations, every first displacement of every atom and every second displacement of every atom pair, with the requested distances and signs. "
  "Options for cutoff, diagonal, plus-minus and distance change only what they name: cutoff marks exactly the pairs beyond the distance and keeps the numbering of the others. "
  "The displaced supercells are the perfect supercell plus exactly the displacements of the dataset.",
  ["inputs", "configurations"],
  "all crystals and supercells, all combinations of displacement options and cutoffs",
  "tests compare stored displacement lists of few crystals",
  ["phono3py/phonon3/displacement_fc3.py", "phono3py/api_phono3py.py"],
  [("displacement search", "phono3py/phonon3/displacement_fc3.py"), ("supercells", "phono3py/api_phono3py.py")],
  ["Phono3py.dataset", "Phono3py.supercells_with_displacements"])

p("C19", "Everything written to files is read back unchanged",
  "A calculation stored in files (parameters, displacements and forces, force constants, phonons, linewidths, collision matrices, dynamical data) and read back yields the same object state and the same results, in each file format, compression and representation. "
  "Reading never silently substitutes or drops data: a file that does not match the calculation is refused. "
  "Converting datasets between representations keeps every displacement and force.",
  ["inputs", "configurations", "histories"],
  "all crystals, dataset types (pairs, one array, with cutoff), fc forms, NAC, units, file formats and compressions, any sequence of save and load",
  "tests have one round trip per kind with one crystal",
  ["phono3py/file_IO.py", "phono3py/interface/phono3py_yaml.py", "phono3py/phonon3/dataset.py"],
  [("yaml", "phono3py/interface/phono3py_yaml.py"), ("hdf5 and text files", "phono3py/file_IO.py"), ("dataset conversion", "phono3py/phonon3/dataset.py")],
  ["Phono3py.save", "phono3py.load", "write_*/read_* of file_IO"])

p("C20", "Results do not depend on the thread schedule",
  "Whatever number of threads executes a compiled parallel loop and however their steps interleave, the result is the one of the sequential execution. "
  "No two threads access the same memory location, one of them writing, without being ordered; this holds for one level of parallel loops as for nested ones.",
  ["schedules", "inputs"],
  "all assignments of iterations to threads and all interleavings in every parallel loop of the compiled code, for all entry points and inputs",
  "the tests are built or run with one schedule chosen by the machine; a race shows up rarely or never",
  ["c/interaction.c", "c/real_to_reciprocal.c", "c/triplet_iw.c", "c/pp_collision.c", "c/imag_self_energy_with_g.c", "c/collision_matrix.c", "c/phonon.c", "c/phono3py.c", "c/isotope.c", "c/fc3.c", "c/real_self_energy.c", "c/dynmat.c"],
  [("OpenMP loops and their private/shared data", "c/*.c")],
  ["return values of the compiled functions"])

p("C21", "Results depend on the inputs only, not on memory contents or earlier calls",
  "The compiled routines compute their results from their arguments alone: the memory layout of the arrays given by the user, the previous contents of uninitialised heap or stack memory and of output arrays that are documented as overwritten, and earlier calls with other arguments, have no influence (an argument of a kind that is not supported may be refused). "
  "They write only inside the arrays given to them.",
  ["inputs", "histories"],
  "all compiled entry points on all inputs, all contents of fresh memory and all earlier calls",
  "tests run with whatever the allocator returns, most often zeros",
  ["c/phono3py.c", "c/interaction.c", "c/triplet_iw.c", "c/pp_collision.c", "c/dynmat.c", "c/_phono3py.cpp", "c/_phononcalc.cpp", "c/_recgrid.cpp"],
  [("allocation and initialisation of work arrays", "c/*.c")],
  ["return values of the compiled functions"])

p("C22", "Interrupted or distributed calculations resumed from files give the same result",
  "A thermal-conductivity calculation split over runs by grid points or bands, with partial results kept in files, gives the same result as the single run, for every partition and order of the parts (the bands of a degenerate set being kept in one part). "
  "Partial results made with other settings (temperatures, mesh, smearing, number of bands) are not taken over silently. "
  "A run that is killed at any point leaves files from which a continued run either produces the correct result or stops with an error: never a silently wrong result.",
  ["crash_points", "histories", "configurations"],
  "all partitions and orders of grid points into runs, all crash points at file operations, all kinds of partial-result files (phonons, interactions, linewidths, collision matrices)",
  "tests have one case of writing and one of reading the linewidth file; nothing is interrupted",
  ["phono3py/conductivity/rta.py", "phono3py/conductivity/direct_solution.py", "phono3py/conductivity/utils.py", "phono3py/file_IO.py"],
  [("writing of partial results", "phono3py/conductivity/utils.py"), ("assembly of partial results", "phono3py/conductivity/rta.py")],
  ["run_thermal_conductivity(write_gamma/read_gamma)", "kappa-*.hdf5"])

p("C23", "Results depend on the current settings only, not on the history of calls",
  "After any sequence of settings and calculations on one calculator object, a calculation gives the same result as on a freshly created object with the same final settings. "
  "A calculation never alters its inputs: force constants, datasets, cells and parameters given by the caller stay as they were. "
  "Settings that invalidate earlier intermediate results cause them to be recomputed or an error asking for initialisation, never a silent mix.",
  ["histories"],
  "all sequences up to a bound of setting changes (mesh, force constants, NAC, sigma, band indices, masses, displacement and forces) and calculations on one object",
  "each test creates a fresh object and performs one calculation",
  ["phono3py/api_phono3py.py", "phono3py/phonon3/interaction.py", "phono3py/api_jointdos.py"],
  [("state of the calculator", "phono3py/api_phono3py.py"), ("cached phonons", "phono3py/phonon3/interaction.py")],
  ["Phono3py"])

p("C24", "Command-line options and configuration tags mean the same",
  "Each setting given as a command-line option has the same effect as its configuration-file tag, and when both are given the command line wins. "
  "Settings not given keep their documented defaults, one setting never alters another, and the effect does not depend on the order in which they are given.",
  ["inputs", "configurations"],
  "all options and tags, all values in their domains, all pairs of options, both commands",
  "tests run a few complete commands with fixed options",
  ["phono3py/cui/settings.py", "phono3py/cui/phono3py_argparse.py", "phono3py/cui/phono3py_script.py"],
  [("option and tag parser", "phono3py/cui/settings.py"), ("argument parser", "phono3py/cui/phono3py_argparse.py")],
  ["Phono3pyConfParser.settings"])

p("C25", "Loading assembles the calculation from the documented sources in order",
  "Given any combination of files in the working directory and arguments, loading picks cell, force constants, displacement-force data and Born charges by the documented precedence, explicit arguments first. "
  "The loaded object is identical for every equivalent way of providing the same data, and missing or inconsistent data lead to an error or to the documented absence, never to data of another source.",
  ["configurations", "inputs"],
  "all subsets of present files and given arguments, file formats and dataset layouts",
  "tests cover a few combinations",
  ["phono3py/cui/load.py", "phono3py/cui/create_force_constants.py", "phono3py/interface/phono3py_yaml.py"],
  [("load", "phono3py/cui/load.py"), ("force constants", "phono3py/cui/create_force_constants.py")],
  ["phono3py.load"])

p("C26", "Mode Grueneisen parameters are the strain derivative of frequencies",
  "The mode Grueneisen tensor computed from second- and third-order force constants equals the analytic expression of the third-order force constants contracted with eigenvectors and positions. "
  "It is the same on meshes and along paths, for compact and full force constants, and obeys the symmetry of the crystal.",
  ["inputs", "configurations"],
  "all crystals, q-points, meshes, paths, NAC, force-constant forms",
  "one test compares the values of one crystal",
  ["phono3py/phonon3/gruneisen.py"],
  [("Gruneisen", "phono3py/phonon3/gruneisen.py")],
  ["Gruneisen.get_gruneisen_parameters", "run_gruneisen_parameters"])

p("C27", "The C grid library gives exact grids, maps and reduced cells for every basis",
  "The grid library's functions (reduction of a basis, generalized regular grids, zone grids, addresses, indices, rotations, irreducible points, triplets and integration weights) "
  "return what their definition says for every lattice, mesh and shift: the reduced basis spans the same lattice with the same volume and handedness, fulfils the reduction conditions and has the same metric "
  "whatever basis it is given (also with one aperiodic axis); zone grids hold exactly the shortest images of each point, and the same points in space for every basis of the lattice; "
  "maps and weights are those of the orbits of the given symmetry.",
  ["inputs"],
  "all lattices, all unimodular changes of basis, all meshes and shifts, all kinds of map",
  "the Python tests sample a few grids and never call the reduction with a skewed basis",
  ["c/niggli.c", "c/gridsys.c", "c/bzgrid.c", "c/grgrid.c", "c/triplet_grid.c", "c/triplet_iw.c", "c/tetrahedron_method.c", "phono3py/phonon/grid.py"],
  [("Niggli reduction", "c/niggli.c"), ("grid system library", "c/gridsys.c")],
  ["gridsys functions", "BZGrid"])

p("C28", "Structures written for a calculator and forces collected from it belong together",
  "The supercells written for a calculator hold the displacements recorded in phono3py_disp.yaml, and a command that collects forces from the calculator's outputs "
  "(--cf3, --cf2, --cf3-file, --cfz, with or without --sp) ends with each set of forces at its own displacement, in the calculator's units, with residual forces subtracted when asked for, and with energies and "
  "parameters of the non-analytical term kept. Wrong numbers of outputs, outputs of other structures or in a wrong order where positions tell it, and outputs without forces are refused and nothing is written. "
  "Conversions between FORCE_SETS and FORCES_FC2 keep every displacement and force.",
  ["inputs", "configurations", "faults"],
  "all calculators, all options that generate displacements, all ways to list and to collect outputs, all single faults of the outputs",
  "the tests never write structures and read outputs back, and never give a wrong output",
  ["phono3py/cui/create_force_sets.py", "phono3py/cui/create_supercells.py", "phono3py/interface/calculator.py", "phono3py/interface/wien2k.py", "phono3py/phonon3/dataset.py", "phono3py/file_IO.py"],
  [("collection of forces", "phono3py/cui/create_force_sets.py"), ("structures with displacements", "phono3py/cui/create_supercells.py")],
  ["FORCES_FC3", "FORCES_FC2", "FORCE_SETS", "phono3py_params.yaml", "supercell files"])

p("C29", "Displacement correlations and averages of SSCHA are those of the crystal",
  "The displacement correlation matrix and its inverse (Upsilon) at any temperature are the functions of the mass-weighted force constants they are defined to be, from all modes above the cutoff frequency and no others, inverse to each other on these modes, "
  "symmetric under the crystal symmetry, and the same from phonons of the supercell and from phonons at the commensurate points, whatever was calculated before. Averages over an ensemble of displacements and forces return exactly the second- and third-order force constants "
  "that made the forces, for any masses and supercell. Neither inputs nor the handling of floating-point errors is changed, also not by a call that fails.",
  ["inputs", "histories"],
  "all crystals, supercells, masses, temperatures, cutoffs and imaginary modes; all ensembles with the right moments; all sequences of temperatures",
  "the tests compare numbers of one crystal with one kind of atom, where wrong masses cancel",
  ["phono3py/sscha/sscha.py", "phono3py/phonon/func.py"],
  [("SSCHA", "phono3py/sscha/sscha.py"), ("length of modes", "phono3py/phonon/func.py")],
  ["SupercellPhonon", "DispCorrMatrix", "DispCorrMatrixMesh", "SecondOrderFC", "ThirdOrderFC"])

p("C30", "Machine-learning potentials are trained and evaluated with the object's data",
  "A machine-learning potential is trained with exactly the displacements, forces, energies and parameters that were given, saving and loading it (also compressed) gives the same potential, and evaluating it gives every supercell with displacements the forces and energy "
  "of the potential at that supercell - for systematic and random displacements, pairs beyond a cutoff, and the separate supercell of fc2, after any history of operations. The command reads an existing potential rather than replacing it, trains one only if there is none, and ends with "
  "the dataset and force constants of that potential. Incomplete training data and operations that are not possible yet are refused and change nothing.",
  ["inputs", "configurations", "histories"],
  "all sequences of training, saving, loading, displacing and evaluating; all sets of files in the directory, training data and options of the command",
  "the tests develop one potential and evaluate it once",
  ["phono3py/api_phono3py.py", "phono3py/cui/create_force_constants.py", "phono3py/cui/phono3py_script.py", "phono3py/cui/load.py"],
  [("machine-learning potentials of the object", "phono3py/api_phono3py.py"), ("command and load", "phono3py/cui/create_force_constants.py")],
  ["Phono3py.develop_mlp", "Phono3py.evaluate_mlp", "phono3py-load --pypolymlp", "polymlp.yaml", "phono3py_mlp_eval_dataset.yaml"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(x) + "\n" for x in P))
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(len(P))
