prop("C01", "Local operators embed faithfully in the many-body space",
     "For every local operator, placing it on a site and species of a lattice yields the operator that acts on exactly that "
     "degree of freedom of the documented basis, with the documented fermionic signs. Two-site operators equal the ordered "
     "product of the two single-site ones, fermion operators satisfy the canonical anticommutation relations, spin operators "
     "on different sites commute, and sum, Fourier-sum, exchange and all-site operators are the stated combinations.",
     ["inputs", "configurations"], "all local operator entries (complex), all site/species pairs, spins 1/2 to 3/2",
     "the tests only build a few fixed Hamiltonians with fixed local operators on spin-1/2 or two-level sites",
     [BASE, SPI, FER], [("embedding by Kronecker products with parity strings", BASE + " get_single_site_op, get_two_site_op"),
                        ("sums over sites", BASE + " get_sum_op, get_sum_op_q; " + SPI + " get_sum_op, get_allsite_op"),
                        ("exchange operators", FER + " get_swap_op; " + SPI + " get_swap_op")])
prop("C02", "Hubbard Hamiltonian is the documented second-quantised operator",
     "For every Hermitian hopping matrix (including complex phases from twisted boundaries), on-site and same-species "
     "interactions, chemical potentials and potentials, the matrix the fermion model builds equals the second-quantised Hubbard "
     "Hamiltonian those parameters denote: -sum t_ij c^dag_i c_j + U n_up n_dn + V n n - mu n + potential n. It is Hermitian, "
     "scalar arguments expand to uniform couplings on the bonds of the geometry, the separately exposed terms add up to it, and "
     "the current operator is i times its commutator with position.",
     ["inputs", "configurations"], "all hopping, interaction, chemical potential and potential values, all small lattices and boundary conditions",
     "tests compare a few spectra of real, uniform models; wrong phases, axes or per-species terms leave these unchanged",
     [FER, BASE, GEO], [("coefficient expansion", FER + " __init__, get_hopping_mat, get_potential_mat, get_interaction_mat"),
                        ("Hamiltonian assembly", FER + " createH, get_kinetic_op, get_current_op, get_interaction_op, get_potential_op")])
prop("C03", "Spin Hamiltonian, spin algebra and special states are as documented",
     "For every symmetric coupling matrix and field vector the spin model builds the documented XYZ Hamiltonian in fields for any "
     "spin length; its spin operators satisfy the su(2) algebra with the textbook matrix elements; coupling lists, van der Waals "
     "C6 couplings and Rydberg detunings mean what they say; the spin flip is a unitary involution; the special product states "
     "(ferromagnetic, antiferromagnetic, ...) and basis labels denote the stated configurations.",
     ["inputs", "configurations"], "all couplings and fields, spins 1/2 to 5/2, small lattices",
     "tests use spin-1/2 with uniform couplings on few fixed lattices",
     [SPI, BASE], [("local spin operators", SPI + " __init__, get_rotation_mat"), ("Hamiltonian assembly", SPI + " createH"),
                   ("interaction matrices", SPI + " get_interaction_mat*"), ("special states and labels", SPI + " get_special_states, get_state_vects")])
prop("C04", "Conserved-quantity sectors and subspace projectors are exact",
     "A particle-number sector contains exactly the basis states with the requested number of each species, its Hamiltonian is "
     "P H P^dagger of the full one, the sectors of all numbers reassemble the full Hamiltonian, and the projectors onto the "
     "eigenspaces of any diagonal operator have orthonormal rows, resolve the identity and reproduce the operator.",
     ["inputs", "configurations"], "all particle numbers, all diagonal operators, all projector matrices, all Hamiltonian coefficients",
     "tests compare spectra of one or two sectors of one model", [BASE, FER, SPI],
     [("subspace projectors", BASE + " get_subspace_projs"), ("number sectors", FER + " __init__ (ns), n_projector"),
      ("projected construction", FER + " createH(projector); " + SPI + " createH(projector)")])
prop("C05", "Symmetry operators move states and operators with the sites",
     "For every site permutation given as cycles (from any starting site, in any order) the transformation operator is unitary, "
     "leaves the vacuum invariant, maps each site's operator to that of the image site with the correct fermionic sign for any "
     "number of species, composes like the permutations, and conjugates every Hamiltonian into the one with permuted couplings; it "
     "commutes with the Hamiltonian whenever the couplings are invariant.",
     ["inputs", "configurations"], "all permutations and cycle notations of small site sets, all local operators, all couplings",
     "tests only compare sector spectra for a few translations and rotations, blind to conjugate or sign conventions",
     [BASE, FER, SPI, SYM], [("transformation operator from cycles", BASE + " get_xform_op"),
                             ("site exchange", FER + " get_swap_op; " + SPI + " get_swap_op")])
prop("C06", "Coordinate transformations induce the exact site permutation and cycles",
     "For every cluster or periodic lattice that a coordinate transformation maps onto itself, the computed site map sends each site "
     "to the one at its transformed position modulo the periodicity, the cycles cover every site exactly once and generate that "
     "permutation, and the reported order is its least common period; transformations that do not map the sites onto themselves are "
     "reported, never silently accepted.",
     ["inputs", "configurations"], "all site positions, permutations, translations, offsets on small clusters and tori",
     "tests sample a handful of lattices and transformations", [SYM, GEO],
     [("site matching modulo periodicity", SYM + " getTransformedSites"), ("cycle decomposition", SYM + " findSiteCycles")])
prop("C07", "Rotation, reflection, inversion and translation maps are exact isometries",
     "For every centre, axis and vector, the coordinate transformations are the stated isometries: rotations by 2 pi/n are "
     "counter-clockwise, fix the centre and close after n steps; reflections are involutions fixing exactly the line through the "
     "centre along the axis; inversion is the point reflection; translation adds the vector; degenerate axes are rejected.",
     ["inputs"], "all points, centres, axis directions, vectors; rotation orders 1 to 12",
     "tests use only a few lattice-symmetric centres and axes", [SYM],
     [("coordinate maps", SYM + " getRotFn, getReflFn, getInversionFn, getTranslFn")])
prop("C08", "Symmetry-sector projectors split the space exactly and block-diagonalise H",
     "For every representation of the supported groups, the sector projectors have orthonormal rows, are mutually orthogonal and "
     "together complete, each transforms under the group with the momentum or irreducible representation it is labelled with, every "
     "invariant operator is block diagonal in them so that the blocks reassemble it, and the built-in character tables satisfy the "
     "orthogonality theorems.",
     ["inputs", "configurations"], "all vectors, phases, invariant operators; cyclic, 2D translation, dihedral and 3x3-lattice groups",
     "tests check that sector spectra reproduce the full one for a few systems; labels, completeness for other representations and "
     "table errors go unseen", [SYM],
     [("projector construction", SYM + " reduce_symm_projector, get_symmetry_projectors, getZnProjectors, get2DTranslationProjectors"),
      ("group tables", SYM + " getD2Projectors..getD7Projectors, getC4V_and_3byb3, validate_char_table")])
prop("C09", "Reduction to the periodicity cell and reciprocal vectors are exact",
     "For every point and periodicity, reducing to the unit cell returns an equivalent point (differing by the reported integer "
     "multiples of the periodicity vectors) inside the cell of the requested mode, periodic and idempotent, including one-dimensional and "
     "absent periodicity; reciprocal vectors satisfy b_i . a_j = delta_ij (2 pi convention as documented); linearly dependent or off-lattice "
     "periodicity vectors are rejected.",
     ["inputs", "configurations"], "all points and cell vectors, both reduction modes",
     "tests use a handful of integer points and cells", [GEO],
     [("cell reduction", GEO + " reduce_vectors, Lattice.reduce_to_unit_cell"), ("reciprocal basis", GEO + " get_reciprocal_vects"),
      ("validation", GEO + " Lattice.validate_instance")])
prop("C10", "Lattice geometries contain exactly the distinct sites of one cell",
     "For every lattice, basis and pair of periodicity vectors, the generated sites are exactly the |det| times basis-size lattice "
     "points of one periodicity cell, each listed once and never twice because of rounding, inside the half-open cell; the built-in "
     "square, tilted, triangular, hexagonal and polygon clusters have the documented sites, sides and boundary conditions.",
     ["inputs", "configurations"], "all periodicity vectors and lattice bases in small ranges, all cluster sizes up to 4x4",
     "tests check a few clusters; duplicated sites appear only for particular sizes through rounding", [GEO],
     [("site enumeration", GEO + " Lattice.get_unique_sites"), ("cluster constructors", GEO + " Geometry.create*")])
prop("C11", "Distances, neighbours and boundary phases respect the periodicity",
     "For all site positions the distance matrices are antisymmetric displacements equal to the position difference modulo the "
     "periodicity and no periodic image is closer; two sites are neighbours exactly if they are one bond length apart (directly or "
     "through the boundary); the phase of a displacement is exp(i phase) per period, Hermitian, unit modulus and accumulates the full "
     "twist around a ring; malformed adjacency or phase matrices are rejected.",
     ["inputs", "configurations"], "all positions, offsets, images and phases on orthogonal, oblique, one- and zero-dimensional cells",
     "tests compare a few adjacency matrices and one phase matrix", [GEO],
     [("minimum image", GEO + " Lattice.get_reduced_distance"), ("neighbours", GEO + " Geometry.__init__, get_neighbors_by_distance"),
      ("twist phases", GEO + " Lattice.get_phase_mat"), ("validation", GEO + " validate_adjacency_mat, validate_phase_mat")])
prop("C12", "Relabelling, sorting and comparing geometries is consistent",
     "Permuting sites relabels coordinates, distances, adjacency and phases together (and hence the Hamiltonian built on them), "
     "invalid permutations are rejected; each sorting mode returns a permutation in the documented order; equality holds for copies "
     "and fails whenever positions, distances, adjacency, phases or lattices differ, with != its negation.",
     ["inputs", "configurations"], "all positions, adjacency and phase matrices, permutations of small clusters",
     "tests permute one lattice", [GEO], [("relabelling", GEO + " Geometry.permute_sites"), ("sorting", GEO + " get_sorting_permutation"),
                                         ("comparison", GEO + " Geometry.__eq__, isequal_adjacency; Lattice.__eq__")])
prop("C13", "Thermal weights and averages follow the Boltzmann distribution",
     "For every spectrum and temperature (zero, finite, several at once, given as number or array) weights are exp(-(E-E0)/T), the "
     "partition function is their sum, zero temperature averages over the degenerate ground manifold, thermal averages equal "
     "sum w <n|O|n> / Z independent of the energy zero, and the trace formula agrees with the spectrum.",
     ["inputs"], "all sorted spectra, degeneracies, temperatures, operators and eigenvectors",
     "tests use thermal averages of one or two models at fixed temperatures", [BASE],
     [("weights", BASE + " get_thermal_weights"), ("averages", BASE + " get_exp_vals_thermal"),
      ("trace formula", BASE + " get_partition_fn_hamiltonian"), ("matrix elements", BASE + " get_matrix_elems")])
prop("C14", "Averages combined from symmetry sectors equal the full thermal average",
     "For every split of a spectrum into sectors, combining per-sector thermal averages with the sector partition functions (which are "
     "measured from a common energy zero) reproduces the average over all states, for scalar and array quantities, several "
     "temperatures, and at zero temperature with ground states spread over any sectors.",
     ["inputs", "configurations"], "all sector spectra, minima orderings, values, temperatures",
     "tests combine the sectors of one model", [BASE], [("sector partition functions", BASE + " get_partition_fn_sectors"),
                                                      ("combination", BASE + " thermal_avg_combine_sectors")])
prop("C15", "Expectation values, overlaps, norms and subspace weights are inner products",
     "For all states, dense or sparse, single or in columns, expectation values are <v|O|v>, overlaps <a|b> with the first argument "
     "conjugated and indexed first, norms <v|v>, and subspace weights |Pv|^2, which add up to the norm over a complete set.",
     ["inputs"], "all complex amplitudes, operators and projectors of small dimension in every storage format",
     "tests use real eigenvectors in one format, hiding conjugation and index errors", [BASE],
     [("expectation values", BASE + " get_exp_vals"), ("overlaps", BASE + " get_overlaps"), ("norms", BASE + " get_norms"),
      ("subspace weights", BASE + " get_subspace_overlaps")])
prop("C16", "Quench dynamics is the unitary evolution generated by the given spectrum",
     "For every spectrum, eigenbasis, set of initial states and times, the evolved state is sum_n |n> exp(-i E_n t) <n|psi>: norms and "
     "energy are conserved, time zero is the identity, evolutions compose, eigenstates only acquire a phase, and weight outside a "
     "truncated basis never appears.",
     ["inputs"], "all spectra, initial states, times, real and complex eigenbases",
     "tests evolve one state of one model", [BASE], [("spectral evolution", BASE + " quench_time_evolve")])
prop("C17", "Site-resolved expectation values and correlators refer to their sites",
     "For every state and local operator, the entry reported for a site (pair) is the expectation value of the operator(s) on exactly "
     "those sites and species with fermionic signs, for default and requested site lists, in projected sectors, for spins, and as "
     "Boltzmann averages at any set of temperatures.",
     ["inputs", "configurations"], "all states, local operators, site lists, temperatures for up to four modes",
     "tests check densities and one correlator of uniform systems, where mixed-up sites give equal values", [BASE],
     [("site values", BASE + " get_exp_vals_sites, get_thermal_exp_sites"), ("pair correlators", BASE + " get_corr_sites, get_thermal_corr_sites")])
prop("C18", "Response functions and optical conductivity equal their Kubo sums",
     "For every spectrum (with degeneracies), operator, frequency, broadening and temperature including zero, the retarded response "
     "is the Lorentzian-broadened spectral sum with weight exp(-bE_n) -/+ exp(-bE_m), odd (bosonic) or even (fermionic) in frequency for "
     "Hermitian operators; the optical conductivity and its frequency integral are the Kubo sums per site without the zero-frequency part.",
     ["inputs"], "all spectra, Hermitian operators, frequencies, broadenings, temperatures",
     "tests hardly exercise these functions", [BASE, FER],
     [("retarded response", BASE + " get_response_fn_retarded"), ("time-ordered response", BASE + " get_response_fn_time_ordered"),
      ("optical conductivity", FER + " get_optical_cond_fn, integrate_conductivity")])
prop("C19", "Diagonalisation returns sorted and correctly paired eigenpairs",
     "For every Hermitian matrix, diagonalisation returns real energies in ascending order, each with its own orthonormal eigenvector "
     "(H v = E v), all of them in dense mode and the requested number in sparse mode, without any residual shift.",
     ["inputs"], "all spectra in several real and complex eigenbases, every order of the sparse solver's output",
     "tests compare spectra only; LAPACK happens to return sorted energies, hiding pairing errors", [BASE],
     [("diagonalisation", BASE + " diagH")])
prop("C20", "NLCE cluster enumeration, multiplicities and embeddings are complete",
     "The linked-cluster enumeration lists every connected square-lattice cluster of each order exactly once (up to point-group "
     "symmetry when requested) with its number of orientations; growing a cluster gives every cluster with one more site; the "
     "subclusters of a parent are all its connected subsets, and the (reduced) matrices count exactly the proper embeddings of each "
     "distinct cluster in each other, wherever the parent lies and however its sites are numbered. Hence expansions of additive "
     "properties are exact from the order of their largest term on.",
     ["inputs", "configurations"], "all parents of bounded size, positions, site orders and additive properties",
     "tests compare the counts of a few orders and one parent", [NLCE, SYM, GEO],
     [("enumeration", NLCE + " get_clusters_next_order, get_all_clusters, get_clusters_rel_by_symmetry"),
      ("subclusters", NLCE + " get_subclusters_next_order, get_all_subclusters, get_reduced_subclusters, get_all_clusters_with_subclusters"),
      ("reduction", NLCE + " reduce_clusters_by_geometry, map_between_cluster_bases")])
prop("C21", "NLCE weights, orders and Euler resummation follow inclusion-exclusion",
     "For every table of cluster properties (any trailing shape) and multiplicities, the weight of a cluster is its property minus the "
     "weights of its subclusters times their multiplicities, each order contributes the multiplicity-weighted weights of its clusters "
     "per site, the orders add up to the expansion, a cluster's own expansion returns its property, and the Euler resummation is "
     "the stated transform of the orders.",
     ["inputs"], "all property values, multiplicities, order boundaries, array shapes, resummation parameters",
     "tests check one model with one array shape and never the resummation", [NLCE],
     [("weights and orders", NLCE + " get_nlce_exp_val"), ("resummation", NLCE + " euler_resum")])
prop("C22", "Fermi function, derivatives, momentum grids and densities of states are exact",
     "For every temperature including zero and infinite, chemical potential and energy, alone or broadcast, the Fermi function is "
     "1/(exp(b(e-mu))+1) (at zero temperature the step, filled up to and including mu) and its finite-temperature derivatives are the analytic ones; "
     "momentum grids contain every allowed momentum once, x along columns; energy spacings are those of adjacent distinct levels; "
     "densities of states count each level once per bin width and integrate to the covered fraction.",
     ["inputs", "configurations"], "all temperatures, chemical potentials, energies, grid sizes, spectra and bins",
     "not tested directly", [GAS],
     [("occupation", GAS + " fermi, fermi_derivatives"), ("momenta", GAS + " get_allowed_kvects"),
      ("densities of states", GAS + " get_energy_spacing, get_dos, get_dos2")])
prop("C23", "Free-gas Green's functions have the defined form in momentum and real space",
     "For every momentum, temperature, chemical potential and time, greater, lesser, retarded, advanced and time-ordered functions "
     "equal their definitions for the tight-binding dispersion, their chemical-potential derivatives (where implemented) are the "
     "analytic ones, real-space functions are the lattice Fourier transform for each of several temperatures and chemical potentials, and "
     "the equal-time anticommutator is the identity.",
     ["inputs", "configurations"], "all momenta, times of either sign, temperatures, chemical potentials, separations, small lattices in one and two dimensions",
     "tests only use equal-time densities of one ring", [GAS],
     [("momentum space", GAS + " fg_kspace_gfns"), ("real space", GAS + " fg_realspace_gfn")])
prop("C24", "Free-gas densities, correlators and response obey Wick's theorem and sum rules",
     "For every temperature and chemical potential(s), density and compressibility are the mean occupation and its derivative, "
     "density, single, double and spin correlators equal their Wick expansions at every separation including the same site, "
     "fluctuations summed over the lattice equal temperature times compressibility, the density response is the Lindhard sum with "
     "the correct limit for degenerate levels, and the static uniform response is minus the compressibility.",
     ["inputs", "configurations"], "all temperatures, chemical potentials, separations, wavevectors, frequencies, broadenings on small lattices",
     "tests compare density and one correlator for one ring", [GAS],
     [("thermodynamics", GAS + " fg_density, fg_compressibility, fg_singles, fg_doubles"),
      ("correlators", GAS + " fg_corr, fg_singles_corr, fg_doubles_corr, fg_sz_corr, fg_sx_corr"),
      ("response", GAS + " fg_density_response, fg_magnetic_response")])
prop("C25", "Matsubara frequencies, spectral kernels and imaginary-time transforms are exact",
     "For every temperature and cutoff the Matsubara frequencies are all odd (fermions) or even (bosons) multiples of pi/beta below "
     "it, ascending; imaginary-time and -frequency functions are the trapezoidal spectral integrals on any frequency grid and equal kernel times "
     "spectral function; the Fourier transforms use exactly the supplied points of one period; free propagators are antiperiodic and "
     "equal their closed forms; the broadened spectral function is a Lorentzian of weight 2 pi.",
     ["inputs"], "all temperatures, cutoffs, frequency and time grids, spectral and Green's functions, levels, broadenings",
     "not tested", [GFN],
     [("frequencies", GFN + " get_matsubara_frqs"), ("spectral representations", GFN + " get_grnfn_imagfrq_spectralfn(_kernel), get_grnfn_imagtime_spectralfn(_kernel)"),
      ("transforms", GFN + " grnfn_imagtime_ft, grnfn_imagfrq_ft"), ("free propagators", GFN + " get_noninteracting_*")])
prop("C26", "Hydrodynamic susceptibility and real-time response follow linear response",
     "For every wavevector, frequency, diffusion constant and relaxation rate (finite or infinite) the hydrodynamic susceptibility "
     "solves (Dk^2 - iw - w^2/gamma) chi = chi0 Dk^2 with D = d0 + d2 k^2, reducing to chi0 in the static limit; the switched-off field is "
     "h/(iw+eta); real-time response functions and driven observables are the trapezoidal Fourier integrals of chi and chi times "
     "field on any grid, real for real signals.",
     ["inputs"], "all parameters, frequency grids, susceptibilities, fields and times",
     "not tested", [GFN], [("susceptibility", GFN + " chi_hydro"), ("field", GFN + " field_snap_off_w"), ("real time", GFN + " phi_t, obs_kt")])
prop("C27", "Chemical potential for a requested density reproduces that density",
     "For every finite temperature and density between empty and full, given singly or as arrays, the chemical potential returned for "
     "the free lattice gas gives exactly that density back, one per point in order; half filling gives zero by particle-hole symmetry, "
     "and array sizes that do not match are rejected.",
     ["inputs", "configurations"], "all temperatures, densities and array shapes on small rings and tori",
     "not tested; whether the search reaches the root depends on temperature and density", [GAS],
     [("root search", GAS + " fg_mu"), ("density it inverts", GAS + " fg_density")])
prop("C28", "Saved models reload to the same model",
     "For every model and all its couplings, saving to a pickle file and loading it into any other instance restores every attribute, hence "
     "the same Hamiltonian, geometry and sector; saving never alters the model, a later save replaces the file and no other, the default name "
     "is usable, and unsupported or missing files are rejected without changing the model or writing anything.",
     ["inputs", "configurations", "histories"], "all couplings, model kinds, save and load sequences of up to three files",
     "not tested", [BASE], [("file input and output", BASE + " save, load")])
prop("C29", "Progress reporting never changes a result",
     "For every computation that can report progress (Hamiltonians, diagonalisation, thermal and ground-state averages, time evolution, "
     "response functions, symmetry projectors, clusters and their expansion), the result with reporting on equals the result with it off, for every input.",
     ["inputs", "configurations"], "all couplings, operators, temperatures and times of the functions with a print option",
     "the tests never switch reporting on", [BASE, FER, SPI, SYM, NLCE],
     [("timing and printing branches", BASE + " print_results; " + SYM + " print_results; " + NLCE + " print_progress")])
prop("C30", "Batch jobs give the same expansion as a run in one process",
     "The batch scripts generate the lattice's clusters, one job per cluster finds that cluster's subclusters or diagonalises the "
     "Heisenberg model on it, and combining the jobs' files gives the same subcluster multiplicities and the same linked-cluster values, orders and "
     "weights as computing everything at once, whatever the stored results and whatever order the directory lists the files in; existing cluster files are "
     "kept, and missing jobs are reported instead of combined.",
     ["inputs", "schedules", "configurations"], "all stored job results, all listing orders, all clusters and positions",
     "the scripts have no tests", ["cluster/aggregate_results.py", "cluster/aggregate_subclusters.py", "cluster/find_subclusters.py",
                                   "cluster/diag_cluster.py", "cluster/generate_clusters.py", "cluster/generate_clusters_no_subs.py"],
     [("cluster files", "cluster/generate_clusters*.py"), ("jobs", "cluster/find_subclusters.py, cluster/diag_cluster.py"),
      ("combination", "cluster/aggregate_subclusters.py, cluster/aggregate_results.py")])


prop("C31", "Computations leave their inputs unchanged and give the same result when repeated",
     "No computation of the package changes what it was given: arrays, matrices, lists, geometries, lattices and models passed to a function or a method, "
     "and the object a method is called on, hold the same values afterwards (also when the call fails), except for the operations whose purpose is to change or restore their "
     "object; and calling a function again with the same arguments, after any other calls on the same objects, gives the same result.",
     ["inputs", "histories"], "all inputs and call sequences of the other properties' harnesses",
     "tests use each result once, so a changed input or stale state is not seen", [BASE, FER, SPI, SYM, GEO, NLCE, GAS, "exact_diag/greens_fns.py"],
     [("every public function and method", "exact_diag/*.py")])


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append((P.pop(), reason))


na("N02", "Iterative and dense eigensolvers return accurate eigenpairs",
   "For every Hermitian matrix the eigenvalues and vectors returned are accurate to rounding.",
   ["inputs"], "all Hermitian matrices", "tests sample a few", [BASE], [("LAPACK and ARPACK calls", BASE + " diagH")],
   "the accuracy lies in LAPACK and ARPACK (compiled Fortran, iterative, not part of this repository); C19 decides what this code does "
   "with any exact solver result, including every order an iterative solver may return")
na("N03", "Plots show the computed results",
   "The figures drawn by the plotting script of the batch jobs and by the geometry display show the stored values.",
   ["inputs"], "all results", "not tested", ["cluster/plot_results.py", GEO], [("figures", "cluster/plot_results.py; " + GEO + " dispGeometry")],
   "the only effect is on matplotlib figure objects; what counts as showing a value is not a relation between program values")
