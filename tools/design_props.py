# per property: (what is specified and observed, why the tests cannot reach it, cost)
P = {
"C01": ("Every builder (block, ring embedding, outer ring, two clusters) for every (nbh, nbv, side) up to a site bound, larger ones sampled; matrix = unit distance of coordinates; the builders are called again after the returned matrix was overwritten.",
        "the tests fix four small lattices; errors for one-site-wide, tall or non-square lattices need the whole family"),
"C02": ("`get_neighbors`, `get_second_neighbors`, `get_diagonal_second_neighbors`, `build_bond_list` for every site, free and restricted, with lattices of equal size interleaved; expected sets from coordinates, each site listed once.",
        "tests use one restriction on one lattice; caches and duplicates show only across lattices"),
"C03": ("`is_bond_linear` on all two-bond paths in all six orders for the three numbering schemes; must be the collinearity of coordinates; invalid triples must be refused.",
        "numbering coincidences (site numbers equidistant but not aligned) depend on the lattice shape"),
"C04": ("`construct_basis`, `get_index_in_basis`, `get_hash_basis` and the rank functions: exhaustive bases up to a size, extreme fillings beyond, ranks beyond 2^53 by exact counting, bases of up to 80000 determinants sampled.",
        "tests rank one basis; overflow and off-by-one at boundaries of the combinatorial ranks appear at other fillings"),
"C05": ("species lists, site spins, spin reversal (determinant, basis, vector), joins: occupation per site is conserved or exchanged; restrictions do not change what is there.",
        "tests look at two determinants"),
"C06": ("`rotate_determinant` by every k in -9..13 on squares, even k on rectangles: image of the coordinates, composition, identity, bond preservation.",
        "group laws quantify over all pairs of rotations and all lattices"),
"C07": ("complete matrices with only hopping terms and image multisets of single determinants on lattices up to 44 sites against the reference operator; sampled rows and symmetry of Hamiltonians with up to 80000 determinants (also C08-C10, C12, C24).",
        "tests use one to three determinants; which path, which multiplicity and which coupling depend on the neighbourhood of every hole"),
"C08": ("complete matrices with only exchange terms, flip lists per kind of coupling and static energies of determinants.", "the effective coupling depends on the holes around both ends of every bond"),
"C09": ("complete matrices with only displacement and repulsion; image pairs and repulsion energies.", "three-site configurations around every hole, with all pairs of bonds"),
"C10": ("invariants only: symmetric matrix, commutator with an independently built S^2 (exchange and displacement terms), intertwining with spin reversal, half and quarter turns.",
        "the reference model is not involved, so a misreading of a definition shared by C07-C09 would still be seen here"),
"C11": ("matrices of the single terms with unit couplings span the result of every selection with random couplings, in any unit of energy (powers of two from 2^-60 to 2^40).", "cross-talk of switches needs particular selections"),
"C12": ("restricted matrices against the restricted reference, confinement of changed sites, restriction given in the configuration or at assembly, list or pair; several restrictions of the same Hamiltonian after each other, unrestricted ones in between; caller objects unchanged.", "tests restrict one lattice"),
"C13": ("`modified_davidson_algorithm`, `davidson_algorithm`, `get_lowests_eig`, orthonormalisations, projection: residuals below tolerance whenever the solver stopped before its step limit (steps seen by counting multiplications), orthonormal vectors, ascending values, Rayleigh quotients, upper bound by the starting vectors, the same in other units of energy, exact dense spectrum for the probabilistic claim (best of several starts).",
        "convergence is a property of runs: degenerate, block, diagonal, tiny and large (900 rows) matrices, and limits, are where solvers break"),
"C14": ("S^2, S+S-, SzSz, Sz, spin number and multiplicity name against spin-1/2 matrices on random vectors and exact spin eigenvectors; spin numbers of superpositions.", "tests use one or two vectors"),
"C15": ("probabilities per site and species and their rectangular layout: squared weights, sums over species = 1, sums over sites = particle numbers, scaling and complex phases; invalid species refused.", "all states, all shapes"),
"C16": ("reported absolute values are the sorted head of the vector; each determinant once, with its signed coefficient; ties, zeros, complex amplitudes, n beyond the dimension.", "ties are absent from the tests"),
"C17": ("lattice, ring, neighbour and list displays are parsed back to the occupation of every site; symbols of a lattice column must share a text column.", "no test of the ring and neighbour displays on other shapes"),
"C18": ("histories of saves, loads, reloads, overwrites (plain, ring, block results) with arbitrary bit patterns of doubles; a registry of what each file must contain is compared bit for bit; computations on loaded data repeat the original.",
        "round trips must hold for every double, every configuration and after any history of the folder"),
"C19": ("audit-hook log of files written and read: a file has one owner among all computations (electron numbers, 64 selections, plain/ring/8 block variants) and each stage opens the file its predecessor wrote.", "names collide only between particular pairs of computations"),
"C20": ("event log of sweeps: files written once per sector, contents equal to the reference sector, spectra of opposite sectors equal, multiplets present in lower sectors.", "tests do not run a sweep"),
"C21": ("iteration trace of the ring embedding obtained by replay: the eigenpairs of iteration k belong to the stored Hamiltonian plus the reference mean field of iteration k-1 (iteration 1: Neel ring), for ordinary and small couplings; stop at the first iteration within the tolerance; saved = returned.", "self-consistency loops are untested"),
"C22": ("block embedding: first dressing compared exactly, then iteration after iteration (a tolerance just below the distance reached makes the next run stop one iteration later, whose field must be that of the previous state) and by the matrices diagonalised in runs that never stop; fields of ordinary and of small couplings; converged dressing within the tolerance, quarter-turn invariance, variational bound, saved = returned, other files untouched.", "untested in the repository"),
"C23": ("dynamic embedding: first, second and (by the matrices diagonalised) later iterations, and several thresholds, against an independent sum over intermediate states; symmetric, equal to the static one above the largest coupling or without boundary couplings, invariant under the sign of the state, spin reversal, unit and sign of energy (thresholds compare sizes), quarter turns; far sites untouched.", "untested in the repository"),
"C24": ("`compute_energy` and `compute_dynamic_interactions` of a determinant against the assembled Hamiltonian and against reference rows on larger lattices.", "two code paths must agree for all determinants and selections"),
"C25": ("whole computations from lattice to spin labels against reference basis, Hamiltonian, spectrum and spins (bases of up to 1400 determinants); equivalent descriptions give equal spectra; earlier results stay untouched by later computations.", "tests check modules one by one"),
"C26": ("every public function: value in a pristine process = value in any interleaving, also after the caller scribbled on earlier results; nearly equal calls after each other, containers of earlier arguments overwritten and passed again; arguments fingerprinted before and after.", "histories"),
"C28": ("every save runs in forked processes that die (SIGKILL) or are interrupted before each line and each audited file operation in turn, at random instants, or under `RLIMIT_FSIZE` (error or SIGXFSZ in the middle of a write); writers race a reader; sweeps are killed. Afterwards all result files are loaded: bit-identical to the earlier or the complete new result, others untouched, a repeated save works.", "no test stops a process, and the window is a few lines of a save"),
"C27": ("figures inspected when saved: levels, maps, curves and bars against the stored data; decoy files of other computations in the folder must not be read; missing folders are reported.", "tests do not look at figures"),
}
