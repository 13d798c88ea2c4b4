"""Writes /verif/properties.jsonl. Run by hand when a property changes; the output is committed."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

LF, BC, HC, IT, DV, IC, EM, PP = ("latticeFunctions.py", "baseConstruction.py", "hamiltonianConstruction.py", "interactions.py",
                                  "davidson.py", "initialComputations.py", "embedding.py", "postProcessing.py")

prop("C01", "Lattice adjacency matrices match the declared geometry",
 "For every block width and height, the adjacency matrix of a block is the symmetric 0/1 nearest-neighbour matrix of an open rectangular grid numbered row by row from the south-west corner. The lattice with a surrounding ring adds one ring site facing each edge site, numbered counter-clockwise from the south-west, each bonded to the edge site it faces and to its successor on the same side only (the sides are not bonded to one another at the corners); the ring alone has exactly those ring bonds. The lattice of two side-by-side blocks adds to the two grids exactly the bonds joining the east edge of the first to the west edge of the second, row by row.",
 ["configurations"], "all subblock counts and subblock sides, including lattices one site wide or high and non-square ones",
 "The tests compare three or four small lattices with literal matrices; the claim is for every shape, and one wrong bond far from the tested sizes silently changes every Hamiltonian.",
 [LF], [("rectangular adjacency", LF+":build_rectangular_bond_matrix"), ("ring and embedding adjacency", LF+":build_bond_matrix_neel_embedding, build_bond_matrix_neel_outer_lattice"), ("block pair adjacency", LF+":build_bond_matrix_block_embedding")],
 ["matrices returned by the lattice builders"])

prop("C02", "Neighbour, second-neighbour and bond queries are exact",
 "On every lattice, the neighbours of a site, its second neighbours (reached through two bonds, excluding the site and its neighbours), its diagonal second neighbours (those of them reached by two perpendicular bonds) and the list of bonds are exactly those of the lattice geometry, each returned once, a bond with its lower-numbered site first. When the interacting sites are restricted, only allowed target sites (and, for bonds, allowed starting sites) are returned, while the intermediate site of a two-bond path is never restricted.",
 ["inputs", "configurations"], "every site of rectangular, ring-surrounded and two-block lattices, with no restriction, a list of sites or a pair (starting sites, target sites), repeated and interleaved over different lattices",
 "Tests query a handful of sites of a few lattices; restrictions given as pairs and lattices large enough for unordered sets to lose their order are not reached.",
 [LF], [("neighbour queries", LF+":get_neighbors, get_second_neighbors, get_diagonal_second_neighbors"), ("bond list", LF+":build_bond_list")],
 ["return values of the queries"])

prop("C03", "Aligned and perpendicular pairs of bonds are told apart on every lattice",
 "For any three distinct sites joined by two bonds, the three are reported aligned exactly when they lie on one straight line of the lattice, whatever the order in which they are given. This holds for row-by-row, two-cluster and ring-surrounded numberings, including blocks one site wide or high. Triples with a repeated site, or with a site bonded to neither of the two others, are rejected with an error.",
 ["inputs", "configurations"], "all two-bond paths in all six orders, and invalid triples, on lattices of the three numbering schemes",
 "Tests check some triples of some lattices; wrong classification swaps the parallel and perpendicular couplings only for particular sites, e.g. at corners of the ring or across two clusters.",
 [BC], [("alignment test", BC+":is_bond_linear")], ["boolean returned, or error raised, by the alignment test"])

prop("C04", "The basis is complete, canonical and inverted by the index functions",
 "For every number of sites, holes and down spins the basis lists every distribution of holes, down and up spins exactly once, species by species with each list of sites increasing, in lexicographic order of holes then of down spins, and its length is the announced dimension. The index computed for a determinant is its position in that list, whatever the order in which the sites of one species are given, and the determinant computed from an index is the one at that position.",
 ["inputs", "configurations"], "all fillings of small lattices exhaustively, plus extreme fillings and sampled determinants of lattices up to several tens of sites (combinatorial ranks beyond 32 and 53 bits)",
 "Tests check three fillings; the claim is a bijection over every filling and size, with exact integer arithmetic.",
 [BC, LF], [("basis enumeration", BC+":construct_basis"), ("ranking", BC+":get_index_in_basis, compute_hash_table, get_distance_hash"), ("unranking", BC+":get_hash_basis, get_target_hash, fusion_hash"), ("dimension", LF+":compute_dimension")],
 ["basis determinants, indices and determinants returned"])

prop("C05", "Occupations survive spin reversal, joining of blocks and every reading",
 "Every reading of a determinant (sites of a species, spin of a site) agrees with its occupation; where the sites are restricted, only those of the requested list (the first one unless told otherwise) are returned. Reversing spins exchanges up and down on every site and keeps the holes, gives a well-ordered determinant of the configuration with the two electron numbers exchanged and everything else unchanged, is its own inverse, and carries a basis or a state vector to the opposite-spin sector amplitude by amplitude. Joining the determinants of two blocks yields the determinant whose first sites are occupied as in the first block and whose remaining sites as in the second.",
 ["inputs", "configurations"], "random determinants of all fillings from 1 to several tens of sites, all lattice types, joined blocks with different fillings; exhaustive on small lattices",
 "Tests reverse and join a few determinants of at most nine sites with a single filling.",
 [BC], [("species readings", BC+":get_indexes_of, get_spin_site"), ("spin reversal", BC+":reverse_spins, reverse_spins_basis, reverse_spins_vect"), ("block joining", BC+":extend_determinant"), ("canonical order", BC+":reorder_basis_element")],
 ["return values"])

prop("C06", "Lattice rotations are exact quarter turns forming a group",
 "Rotating a determinant by k quarter turns moves the occupation of every site to the image of that site under a clockwise rotation of the lattice by k quarter turns, for any integer k on square lattices and any even k on rectangular ones. Rotations compose additively, four quarter turns give back the determinant, the number of each species is preserved, and bonded sites stay bonded.",
 ["inputs", "configurations"], "all determinants of small lattices and random ones of larger ones, k from -9 to 13, squares of every side reached by different subblock choices, half turns of rectangles",
 "Tests rotate a few determinants of one 3x3 lattice.",
 [BC], [("rotation", BC+":rotate_determinant")], ["rotated determinants"])

prop("C07", "Hopping terms move exactly one electron along one or two bonds",
 "The nearest-neighbour hopping term couples a determinant, with amplitude t, to exactly those obtained by exchanging one hole with an electron of a bonded site. The next-neighbour hopping term couples it, once per pair, to exactly those obtained by exchanging one hole with an electron two bonds away (whatever occupies the intermediate site), with the straight amplitude when the two bonds are aligned and the orthogonal amplitude when they are perpendicular.",
 ["inputs", "configurations"], "complete Hamiltonians of small lattices for every filling, of larger lattices at extreme fillings, and random determinants of larger lattices of the three numbering schemes, with random (also negative or zero) couplings",
 "Tests compare the Hamiltonian of 2x2 and 3x3 lattices with literals for one or two fillings with all couplings mixed.",
 [IT, HC], [("hopping", IT+":compute_hopping_integral, add_hopping_integral"), ("next-neighbour hopping", IT+":compute_next_hopping_integral, add_next_hopping_integral")],
 ["images returned for a determinant", "matrix elements of the Hamiltonian with only the hopping terms selected"])

prop("C08", "Spin exchange acts as J_eff (S_i.S_j - 1/4) on every electron pair",
 "Every bond between two electrons contributes the coupling of that bond times (S_i.S_j - n_i n_j/4): the static part adds minus half the coupling to the diagonal for antiparallel spins and nothing for parallel ones, and the flip part couples, with half the coupling, to the determinant with the two antiparallel spins exchanged. The coupling of a bond is the parallel-hole one if some hole next to one of its ends is aligned with the bond, otherwise the perpendicular-hole one if some hole is next to one of its ends, otherwise the undoped one. Nothing else is coupled by these two terms.",
 ["inputs", "configurations"], "complete Hamiltonians of small lattices for every filling and of larger ones at extreme fillings, random determinants of larger lattices of the three numbering schemes, random couplings",
 "Tests see one doped environment per lattice; which hole position selects which coupling depends on the whole neighbourhood and on the numbering scheme.",
 [IT, BC], [("static part", IT+":compute_static_spin_interaction, add_static_spin_interaction"), ("flip part", IT+":compute_spin_flip, add_spin_flip")],
 ["diagonal value and flipped determinants", "matrix elements with only the exchange terms selected"])

prop("C09", "Singlet displacement and hole repulsion follow their definitions",
 "For every hole bonded to an electron that is itself bonded to an electron of opposite spin, the singlet-displacement term moves the hole to the far site and the pair one bond towards the hole: with amplitude plus h when the two spins keep their order along the path and minus h when they are exchanged, h being the aligned or the perpendicular coupling according to the path; it couples nothing else. The hole repulsion adds to the diagonal the nearest-neighbour repulsion once per bonded pair of holes and the diagonal repulsion once per pair of holes that are diagonal second neighbours.",
 ["inputs", "configurations"], "complete Hamiltonians of small lattices for every filling, extreme fillings and random determinants of larger ones in the three numbering schemes, random couplings",
 "Tests cover one hole on small lattices for displacement and one 4x4 determinant for repulsion.",
 [IT, LF], [("singlet displacement", IT+":compute_singlet_displacement, add_singlet_displacement"), ("hole repulsion", IT+":compute_hole_repulsion, add_hole_repulsion")],
 ["image pairs and repulsion value", "matrix elements with only these terms selected"])

prop("C10", "The Hamiltonian is Hermitian and has the symmetries of the model",
 "For every lattice, filling and choice of couplings the assembled Hamiltonian, of the announced dimension, is a real symmetric matrix. With any terms selected such that the two exchange terms are selected together it commutes with the total spin, is mapped to the Hamiltonian of the opposite-spin sector by spin reversal, and is invariant under the half turn of every rectangular lattice and the quarter turns of square ones.",
 ["inputs", "configurations"], "small lattices, all fillings, all selections of terms, random couplings; symmetry operators are built independently of the repository",
 "Tests compare matrices of a few configurations with literals and never check a symmetry; symmetry breaking by one site or one sector is invisible in them.",
 [HC, IT, BC], [("assembly", HC+":build_hamiltonian"), ("terms", IT+":add_*")], ["the sparse matrix returned"])

prop("C11", "Term selection and couplings enter the Hamiltonian linearly",
 "Each of the six selection switches includes or excludes exactly its own term: the Hamiltonian of any selection is the sum of the Hamiltonians of the selected terms alone, and nothing selected gives the zero matrix. Every matrix element is linear in the ten couplings, each coupling acting only through its own term and element; verbose output and the repulsion-in-embedding and spin-multiplicity switches have no influence.",
 ["inputs", "configurations"], "all 64 selections on several lattices and fillings, random couplings decomposed on the ten unit couplings",
 "Tests use two selections; cross-talk between switches or couplings only shows for particular selections.",
 [HC, IT], [("assembly", HC+":build_hamiltonian"), ("couplings", IT+":Interactions"), ("switches", IC+":BoolInteractions")], ["the sparse matrix returned"])

prop("C12", "A restriction of the interacting sites confines the Hamiltonian",
 "When the interacting sites are restricted to a subset, the Hamiltonian keeps exactly the terms that involve only sites of the subset: no matrix element changes the occupation of another site, only holes, electrons, bonds and hole pairs inside the subset contribute, and holes outside have no influence on the couplings, only the intermediate site of a next-neighbour hop being free. Giving the restriction in the configuration or when assembling the Hamiltonian is equivalent, a restriction to all sites is no restriction, and the caller's configuration and basis are left unrestricted.",
 ["inputs", "configurations"], "random and exhaustive subsets of small lattices of the three numbering schemes, all fillings, given as list or pair, in the configuration or at assembly",
 "No test assembles a Hamiltonian with a restriction.",
 [HC, IT, BC, LF], [("restriction handling", BC+":Configuration, get_indexes_of; "+LF+":get_neighbors, build_bond_list; "+HC+":build_hamiltonian")], ["the sparse matrix returned"])

prop("C13", "The eigensolver returns accurate, ordered, orthonormal lowest eigenpairs",
 "The eigensolver returns as many pairs as requested (at most the dimension, or the search-space limit if one is given), values ascending, vectors orthonormal, each value the expectation value of the matrix in its vector and no lower than the exact eigenvalue of the same rank; these values never exceed those of the initial guess. When it stops before its step limit every residual is within the tolerance, and on Hamiltonians of connected lattices with couplings of the order of the hopping it does so from most generic starting vectors, with the lowest eigenvalues and their multiplicities. Its helpers keep this up: selecting the lowest pairs keeps values and vectors matched, orthonormalisation preserves the spanned space, and the projection of a symmetric matrix along given orthonormal vectors has the spectrum of the matrix restricted to their orthogonal complement.",
 ["inputs", "configurations"], "t-J Hamiltonians of many lattices and fillings, dense, degenerate, diagonal and block matrices, 1x1 up to some hundreds of rows, all ratios of requested pairs to dimension, supplied and random guesses, tight and loose tolerances, step and search-space limits",
 "Tests diagonalise three fixed matrices; convergence, ordering and degeneracy depend on the matrix, the guess and the random start.",
 [DV], [("solver", DV+":modified_davidson_algorithm"), ("Ritz selection", DV+":get_lowests_eig"), ("orthonormalisation", DV+":perform_modified_gram_schmidt, gramSchmidt, perform_matrix_orthogonal_projection")], ["eigenvalues and vectors returned"])

prop("C14", "Spin operators act as the total and two-site spin algebra requires",
 "On every lattice and filling, including sizes where site lists lose their natural order, the total spin operator applied to any real vector, its expectation value, the raising-lowering operator and the z-z operator of two distinct sites, and the z component agree with spin-1/2 algebra on the occupied sites. Eigenvectors of the total spin get spin number s with s(s+1) their eigenvalue and the multiplicity name of 2s+1 components, other vectors the half-integer nearest to the s of their expectation value s(s+1); these are insensitive to normalisation and sign, and all this holds for flat and column vectors alike.",
 ["inputs", "configurations"], "all fillings of small lattices, extreme fillings of lattices up to 16 sites, random vectors and exact spin eigenvectors of every spin",
 "Tests apply the operators to a few vectors of 2x2 and 3x3 lattices.",
 [IT, DV], [("total spin", IT+":compute_S2, compute_S2_exp_val, compute_spin_number"), ("two-site operators", IT+":compute_S_plus_S_minus, compute_spins_z_two_bodies"), ("multiplicity", IT+":compute_spin_multiplicity; "+DV+":compute_spin_and_multiplicity")], ["vectors and numbers returned"])

prop("C15", "Site probabilities are those of the state and sum correctly",
 "For every non-zero state vector, normalised or not, the probability of finding a hole, an up or a down spin on a site is the squared weight of the determinants with that occupation divided by the squared norm: it lies in [0,1], the three sum to one on each site, and over the sites they sum to the numbers of holes, up and down spins. Asking for reversed spins exchanges the up and down probabilities only, and the array for a row-by-row numbered rectangular lattice holds the value of each site at its geometrical place with site 0 at the lower left; other numberings and invalid species are rejected.",
 ["inputs", "configurations"], "random, basis and eigen-vectors, complex phases and scale factors, rectangles wider than high and higher than wide, all fillings of small lattices",
 "Tests check one 2x2 lattice and a few vectors.",
 [BC], [("probabilities", BC+":get_probability_spin_lattice, get_spins_probabilitites_lattice, get_probability_spin_rectangular_lattice")], ["numbers returned"])

prop("C16", "Dominant determinants are the largest amplitudes, each listed once",
 "The n dominant determinants of a real or complex state are n different determinants whose absolute amplitudes are the n largest, in decreasing order, each paired with its own signed coefficient and index, also when amplitudes tie, vanish or are opposite, and all of them when n exceeds the dimension. The displayable variant shows the same determinants in the same order.",
 ["inputs"], "vectors with ties, zeros, opposite signs and scales, row/column/flat shapes, n from 0 to beyond the dimension",
 "Tests use one vector of distinct amplitudes.",
 [BC, IC], [("selection", BC+":get_dominant_determinants, get_displayable_dominant_determinants; "+IC+":get_most_dominant_determinants")], ["lists returned"])

prop("C17", "Every textual display shows the actual occupation of every site",
 "The displays of a determinant - as a list of symbols, as a rectangular lattice, as a lattice with its surrounding ring, and as two neighbouring blocks - show at the geometrical place of each site (site 0 at the lower left, north at the top) the symbol of its occupation, so that the determinant can be read back from the display, for every shape including non-square ones and blocks one site wide or high. The displayed basis lists the determinants in order.",
 ["inputs", "configurations"], "random determinants of all shapes and fillings",
 "Only one 3x3 display is tested; ring and two-block displays not at all.",
 [BC], [("displays", BC+":get_displayable_*")], ["strings and lists returned"])

prop("C18", "Saved computations are recovered exactly and remain usable",
 "Saving a computation and loading it back yields the same configuration (lattice, numbering scheme, site restriction, electron numbers, dimension), couplings, diagonalisation parameters (but for a starting vector, which is discarded), selection switches, determinants, Hamiltonian, eigenvalues, spins, eigenvectors and times, all floating-point numbers bit for bit. Computations carried out on the loaded data give the same results as on the original, saving again overwrites the previous file completely, and saving does not alter the results in memory.",
 ["inputs", "configurations", "histories"], "sequences of saves and loads over lattices, fillings, numbering schemes, restrictions, selections, random eigen-data, through the initial-computation, ring-embedding and block-embedding files",
 "No test touches persistence.",
 [IC, EM], [("save", IC+":save_data; "+EM+":save_data_peripheral_embedding, save_data_embedding_blocks"), ("load", IC+":load_data, recover_results")], ["objects returned by loading", "files written"],
 [("initialComputations/*.json", "saved computations", IC+":save_data")])

prop("C19", "A result file is found again and belongs to one computation",
 "The results saved for a lattice size, electron numbers and selection of terms are written to a file, in the folder of their kind (plain, ring embedding, block embedding with its variants), under the name that the later stages compute for the same parameters, so each stage always reads the result of the matching earlier stage. Two computations that differ in lattice size, electron numbers, selected terms or kind never share a file.",
 ["configurations", "histories"], "all pairs of electron numbers up to 16 sites and all 64 selections for the plain and embedding files; runs of a stage after saving results of neighbouring parameters",
 "No test touches file names.",
 [IC, EM, PP], [("file names", IC+":save_data; "+EM+":save_data_*, embedding_neel, embedding_blocks; "+PP)], ["files created", "file opened by the next stage"])

prop("C20", "A sweep computes and saves every spin sector of the lattice once",
 "Sweeping a lattice with a given number of holes computes and saves one result for every number of up spins from none to all electrons, each with its own electron numbers and basis and the same lattice, numbering, restriction, couplings, selection and diagonalisation parameters. The results of opposite spin sectors have equal spectra, every multiplet seen in a sector appears in all sectors of smaller spin projection, and the number of saved eigenpairs is the requested one or the sector's dimension if smaller; a sector announced as converged has residuals within the tolerance.",
 ["configurations", "histories"], "sweeps over lattices, hole numbers, numbering schemes, restrictions and selections, with more eigenpairs requested than small sectors have",
 "No test runs a sweep.",
 [IC], [("sweep", IC+":perform_configurations_computations")], ["files written during the sweep"])

prop("C21", "Ring embedding solves the block in the mean field of its surroundings",
 "Each iteration of the ring embedding diagonalises the loaded block Hamiltonian plus a diagonal energy: for every bond between an edge site and a ring site, minus J/2 times the probability that the two spins are opposite plus the hole-hole repulsion times the probability that both are holes, and the diagonal hole repulsion times that probability for every edge site and ring site that are diagonal second neighbours. The ring starts as the Néel pattern with no hole and afterwards carries the occupation, with up and down exchanged, of the edge site it faces in the latest ground state. The result, returned and saved with the loaded Hamiltonian unchanged, holds the eigenpairs of the last iteration, which is the first one whose ground state moved by less than the requested tolerance or the last one allowed.",
 ["configurations", "inputs", "histories"], "small square and rectangular blocks, fillings, couplings, iteration limits 1..n, loose and tight tolerances",
 "No test touches the embedding.",
 [EM], [("self-consistent loop", EM+":embedding_neel")], ["returned and saved eigenpairs", "matrix handed to the eigensolver"])

prop("C22", "Block embedding adds the mean field of identical neighbouring blocks",
 "The static embedding in neighbouring blocks adds to the diagonal of the loaded block Hamiltonian, for every bond to the neighbouring block, minus J/2 times the probability that the two spins are opposite plus the hole-hole repulsion times the probability that both are holes, and the diagonal hole repulsion for diagonal second neighbours; the neighbour carries the occupations of the block's own previous ground state, spins reversed or not as requested. With a single neighbour only the east edge is dressed, otherwise the same dressing is applied from the four sides so that the added term is invariant under quarter turns. Each iteration starts again from the loaded Hamiltonian with the field of the ground state of the previous one. On convergence the returned and saved result holds this dressed Hamiltonian and its lowest eigenpair reached from the stored state, and the state which produced the dressing is within the tolerance of it.",
 ["configurations", "inputs", "histories"], "small blocks (rectangular for a single neighbour, square otherwise), fillings, couplings, arbitrary stored ground states, reversed or plain spins, with or without a preceding ring embedding",
 "No test touches the embedding.",
 [EM], [("static block embedding", EM+":embedding_blocks")], ["returned and saved Hamiltonian and ground state"])

prop("C23", "Dynamic embedding only adds a Hermitian dressing of the static one",
 "The dynamic embedding in neighbouring blocks returns, and saves, a real symmetric Hamiltonian that differs from the static embedding of the same stored state only by couplings between determinants that are not smaller than the neglect threshold: it equals the static one when the threshold exceeds every coupling or when no coupling acts across the boundary, and a negligible threshold leaves nothing out. The added couplings change the occupation of no site further than one bond from the boundary sites of a single neighbour, or are invariant under quarter turns when the block is surrounded on its four sides. They are the second-order effect of an electron of the neighbour entering a hole of the block one or two bonds away and going back by the hopping terms: for every determinant of the block and every intermediate state reached from it, the products of the two hopping amplitudes and of the two amplitudes of the neighbour's state, divided by twice the energy of the current ground state minus that of the intermediate state, products below the threshold being neglected; state and energy are the stored ones in the first iteration, those of the previous iteration later. Hence they do not depend on the sign of the stored state, scale with all the energies, and are carried by spin reversal to the opposite-spin sector, whether the spins of the neighbour are reversed or not.",
 ["configurations", "inputs", "histories"], "2x2 and other small blocks, fillings, couplings, thresholds, stored ground states",
 "No test touches the embedding.",
 [EM, IT], [("perturbative dressing", EM+":embedding_blocks")], ["returned and saved Hamiltonian"])

prop("C24", "Determinant energies and couplings agree with the Hamiltonian",
 "For every determinant, the couplings listed for any selection of the hopping, flip, displacement and next-neighbour terms are exactly the off-diagonal Hamiltonian elements of that determinant for the same selection, summed when several terms reach the same determinant. Its energy is the diagonal Hamiltonian element with the static exchange and the hole repulsion selected.",
 ["inputs", "configurations"], "all determinants of small lattices, random ones of larger lattices, the three numbering schemes, all selections, restricted and unrestricted sites, random couplings",
 "Tests check the couplings of two determinants.",
 [IT, HC], [("couplings and energy", IT+":compute_dynamic_interactions, compute_energy")], ["dictionary and number returned"])

prop("C25", "A complete computation is consistent from lattice to eigenstates",
 "A complete computation returns the full basis of its configuration, the Hamiltonian of the selected terms in that basis, eigenpairs of that Hamiltonian within the requested tolerance unless the step limit was reached, and - when requested - one spin number per eigenpair that matches the total spin of its vector. The requested number of lowest states is found, energies are the same for equivalent descriptions of one lattice (other subblock choices or a transposed rectangle), the times reported for basis, Hamiltonian and eigenstates are those spent on them, and the computation leaves the configuration, couplings and selection as they were.",
 ["configurations", "inputs", "histories"], "lattices of the three numbering schemes, fillings, selections, couplings, tolerances, run in sequence in one process",
 "No test runs a computation end to end.",
 [IC, BC, HC, DV, IT], [("pipeline", IC+":perform_initial_computations")], ["returned computation", "calls between the stages"])

prop("C26", "Library calls neither modify their arguments nor depend on past calls",
 "Lattice, basis, interaction, spin, probability, display, symmetry and Hamiltonian-assembly calls leave their arguments (adjacency matrices, configurations, determinants, bases, vectors, couplings) unchanged and return fresh objects. Repeating a call with equal arguments gives an equal result, whatever calls on the same or other lattices were made in between and even if earlier results were modified by the caller; only the starting vector of the eigensolver is random.",
 ["histories", "inputs"], "long random interleavings of all these calls over lattices that share sizes, fillings or shapes but differ otherwise, with results scribbled over between calls",
 "Every test runs few calls on fresh objects; aliasing and stale state need particular call histories.",
 [LF, BC, IT, HC, DV], [("copying before modification", "copy.deepcopy and slices in every function")], ["deep snapshots of arguments before and after", "results of repeated calls"])

prop("C27", "Plots show the stored data",
 "The plots produced from stored results show those results: the spectrum plot has one level per stored eigenvalue at its energy, equal energies drawn side by side; on lattices at least two sites wide and high, density maps show the hole or spin probability of each site, and mark the sites, at their geometrical places with site 0 at the lower left; amplitude plots show the amplitudes of the stored eigenvectors; where a title or legend names the state or the quantity shown, it is that state or quantity. Each plot is made from the file matching the requested lattice, electron numbers, selection and embedding, and is written under the corresponding folder.",
 ["inputs", "configurations"], "small lattices, fillings, random and computed eigen-data, all embedding variants",
 "No test touches plotting.",
 [PP], [("plots", PP)], ["data handed to matplotlib", "image files written"])

prop("C28", "A broken-off save leaves every result whole",
 "Saving a result, plain or of an embedding, replaces the file of the same computation as a whole. When the save fails or ends early - a value that cannot be written, a full disk, an interruption, the death of the process at any point - every result file is what it was before, or the complete new result, can be loaded as before, and no other result is touched; saving again then works. A process that loads a result while others save under the same name gets one complete result. A sweep that is killed keeps the complete results of the sectors it had finished, and every earlier result it had not yet replaced.",
 ["crash points", "schedules", "inputs"], "every line and file operation of the three saves as point of death or interruption, with an earlier result, none, or no folder; random instants; file-size limits; unwritable values; concurrent writers and readers; sweeps killed at random points",
 "No test touches persistence, and none stops a process.",
 [IC, EM], [("save", IC+":save_data; "+EM+":save_data_peripheral_embedding, save_data_embedding_blocks"), ("sweep", IC+":perform_configurations_computations")], ["result files after the failure", "results loaded while others save"],
 state=[dict(name="initialComputations/*.json", meaning="saved computations", where=IC+":save_data")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
