"""Definitions of the planted bugs (see plant.py)."""
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


BC, LF, ITR, DAV, HC, IC, EMB, PP = ("baseConstruction.py", "latticeFunctions.py", "interactions.py", "davidson.py", "hamiltonianConstruction.py",
                                     "initialComputations.py", "embedding.py", "postProcessing.py")

plant("C01-tall-blocks", "C01", [(LF, "    for ind_i in range(nbv * nblocs_side):\n        U[", "    for ind_i in range(min(nbh, nbv) * nblocs_side):\n        U[")],
      "two side-by-side blocks that are higher than wide",
      "the upper rows of the two blocks are not bonded to one another", '''
b = lF.build_bond_matrix_block_embedding(1, 2, 2)
assert all(b[2 * r + 1, 8 + 2 * r] == 1 for r in range(4)), b
''')

plant("C01-ring-west", "C01", [(LF, "        col[(nbv * nblocs_side - ind_col - 1) * nbh * nblocs_side, ind_col] = 1", "        col[(nbh * nblocs_side - ind_col - 1) * nbv * nblocs_side % (nbh * nbv * (nblocs_side ** 2)), ind_col] = 1")],
      "a ring around a block that is not square",
      "the ring sites of the west side are bonded to wrong sites of the block", '''
b = lF.build_bond_matrix_neel_embedding(1, 2, 2)
for k in range(4):
    assert b[8 + 2 + 4 + 2 + k, (3 - k) * 2] == 1, (k, b)
''')

plant("C02-intermediate-site", "C02", [(LF, "    neighbors = get_neighbors(n_site, bond_matrix, [])\n", "    neighbors = get_neighbors(n_site, bond_matrix, (sites_restriction[0], sites_restriction[1] or sites_restriction[0]))\n")],
      "a restriction of the sites leaving out the intermediate site of a pair of bonds",
      "second neighbours reached through a site outside the restriction are lost", '''
b = lF.build_rectangular_bond_matrix(3, 1, 1)
assert lF.get_second_neighbors(0, b, ([0, 2], [0, 2])) == [2]
''')

plant("C02-bond-starts", "C02", [(LF, "        for ind_j in list(set(range(ind_i, nsites)) & set(sites_restriction[1])):", "        for ind_j in list(set(range(ind_i, nsites)) & set(sites_restriction[ind_i in sites_restriction[1]])):")],
      "a restriction whose starting and target sites differ, the target sites not holding the starting one",
      "the bonds listed lead to sites that are not allowed, or miss allowed ones", '''
b = lF.build_rectangular_bond_matrix(2, 2, 1)
assert sorted(map(list, lF.build_bond_list(b, ([0, 1], [2, 3])))) == [[0, 2], [1, 3]]
''')

plant("C04-large-index", "C04", [(BC, "    return get_distance_hash(nsites, [], list_h) * spec.comb(nsites - nholes, nbeta, exact=True) + get_distance_hash(nsites, list_h, list_b)",
                                 "    return get_distance_hash(nsites, [], list_h) * int(round(spec.comb(nsites - nholes, nbeta))) + get_distance_hash(nsites, list_h, list_b)")],
      "a lattice large enough for the number of spin arrangements to exceed the integers a float holds exactly",
      "the index of a determinant is not its position", '''
from scipy.special import comb
c = conf(8, 8, 1, 8, 28)
det = list(range(1, 9)) + [0] + list(range(9, 64))
i = bC.get_index_in_basis(c, det)
assert i == comb(63, 7, exact=True) * comb(56, 28, exact=True), i
''')

plant("C05-reverse-blocks", "C05", [(BC, "        configuration.lattice_type,\n        configuration.nbh, \n", "        configuration.lattice_type if not configuration.nbh % 2 else 'periodic',\n        configuration.nbh, \n")],
      "reversing the spins of a ring-surrounded or two-cluster lattice with an odd number of subblocks horizontally",
      "the reversed configuration loses its numbering scheme", '''
c = bC.Configuration(lF.build_bond_matrix_neel_embedding(1, 1, 2), 1, 5, lattice_type='peripheral', nbh=1, nbv=1, nblocs_side=2)
assert bC.reverse_spins(c, list(range(12)))[0].lattice_type == 'peripheral'
''')

plant("C06-backwards", "C06", [(BC, "    if nb_rot % 4 == 1:", "    if abs(nb_rot) % 4 == 1:")],
      "a negative odd number of quarter turns",
      "turning back by one quarter turns forward", '''
c = conf(1, 1, 2, 1, 1)
d = [0, 1, 2, 3]
assert bC.rotate_determinant(-1, c, bC.rotate_determinant(1, c, d)) == d
''')

plant("C06-rectangle-half-turn", "C06", [(BC, "        det_rotated = reorder_basis_element(configuration, [nsites - 1 - site for site in det])",
                                         "        width = nbv * nblocs_side\n        det_rotated = reorder_basis_element(configuration, [nsites - width * (1 + site // width) + width - 1 - site % width if nbh >= nbv else (site // width + 1) * width - 1 - site % width for site in det])")],
      "a half turn of a lattice higher than wide",
      "the lattice is mirrored instead of rotated", '''
c = conf(1, 2, 1, 1, 1) if False else conf(2, 4, 1, 1, 3)
d = bC.rotate_determinant(2, c, [0, 1, 2, 3, 4, 5, 6, 7])
assert d == [7, 4, 5, 6, 0, 1, 2, 3], d
''')

plant("C07-middle-hole", "C07", [(ITR, "            neighbors=lF.get_neighbors(site_hole, bond_matrix, [])\n", "            neighbors=[site for site in lF.get_neighbors(site_hole, bond_matrix, []) if site not in sites_holes or len(sites_holes) < 3]\n")],
      "at least three holes, one of them between the hole and the electron two bonds away",
      "next-neighbour hops over a hole are lost", '''
c = conf(4, 1, 1, 3, 1)
col, ortho = itr.compute_next_hopping_integral(c, couplings(), [0, 1, 2, 3])
assert col == [[0, 2, 3, 1]] and not ortho, (col, ortho)
''')

plant("C08-one-end", "C08", [(ITR, "                and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: \\\n                    # Check if a neighboring hole is aligned with the pair   # A adapter",
                              "                and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 or ind_neigh_hole_1]: \\\n                    # Check if a neighboring hole is aligned with the pair   # A adapter")],
      "a bond with a perpendicular hole at its first end and an aligned one at its second end",
      "the static exchange uses the perpendicular-hole coupling instead of the parallel-hole one", '''
c = conf(3, 2, 1, 2, 1)
sz = itr.compute_static_spin_interaction(c, couplings(Jhpar=1), [2, 3, 0, 1, 4, 5])
assert abs(sz + .5) < 1e-12, sz
''')

plant("C08-edge-of-ring", "C08", [(ITR, "            elif ind_neigh_hole_0 or ind_neigh_hole_1: # Check if a neighboring hole is orthogonal to the axis of the pair",
                                  "            elif len(ind_neigh_hole_0 + ind_neigh_hole_1) in (1, 2): # Check if a neighboring hole is orthogonal to the axis of the pair")],
      "a bond with three or four perpendicular holes around it",
      "the flip coupling of the bond is the undoped one", '''
c = conf(2, 3, 1, 4, 1)
par, per, und = itr.compute_spin_flip(c, couplings(), [0, 1, 4, 5, 2, 3])
assert (len(par), len(per), len(und)) == (0, 1, 0), (par, per, und)
c = conf(3, 3, 1, 3, 1)
par, per, und = itr.compute_spin_flip(c, couplings(), [0, 1, 6, 3, 2, 4, 5, 7, 8])
assert ([0, 1, 6, 4, 2, 3, 5, 7, 8] in per), (par, per, und)
''')

plant("C09-diagonal-holes", "C09", [(ITR, "            diagonal_next_neighboring_holes = list(set(lF.get_diagonal_second_neighbors(configuration, site_hole)).intersection(set(sites_holes[ind_hole:])))",
                                    "            diagonal_next_neighboring_holes = list(set(lF.get_diagonal_second_neighbors(configuration, site_hole)).difference(*[lF.get_neighbors(site, bond_matrix) for site in neighboring_holes[1:]]).intersection(set(sites_holes[ind_hole:])))")],
      "a hole with two neighbouring holes, one of which is bonded to a hole diagonal to the first",
      "the diagonal repulsion of the pair is left out", '''
c = conf(2, 2, 1, 4, 0)
assert abs(itr.compute_hole_repulsion(c, couplings(VNNNper=1), [0, 1, 2, 3]) - 2) < 1e-12
c = conf(3, 3, 1, 9, 0)
assert abs(itr.compute_hole_repulsion(c, couplings(VNNNper=1), list(range(9))) - 8) < 1e-12
''')

plant("C11-verbose", "C11", [(HC, "    if bV==True:\n", "    if bV==True or (bool_interactions.bV_embedding and bt and bool_interactions.bij and not bz):\n")],
      "the repulsion-in-embedding switch on, hopping and flip selected, static exchange and repulsion not selected",
      "the repulsion enters a Hamiltonian for which it is not selected", '''
c = conf(2, 2, 1, 2, 1)
b = bC.construct_basis(c)
i = couplings(**GENERIC)
x, y = (hC.build_hamiltonian(c, i, b, switches("bt", "bij", bV_embedding=e)).toarray() for e in (False, True))
assert (x == y).all()
''')

plant("C12-outside-hole", "C12", [(ITR, "            ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0)))\n            ind_neigh_hole_1",
                                  "            ind_neigh_hole_0 = list(set(ind_neigh_0) & set(vect[: configuration.nholes]))\n            ind_neigh_hole_1")],
      "a restriction leaving out a hole next to the first end of a bond between opposite spins",
      "a hole outside the restriction changes the coupling of a flip", '''
c = conf(3, 1, 1, 1, 1, sites_restriction=[1, 2])
assert [len(x) for x in itr.compute_spin_flip(c, couplings(), [0, 1, 2])] == [0, 0, 1]
''')

plant("C12-hop-target", "C12", [(ITR, "                sites_next_neigh_electrons = list(set(bC.get_indexes_of(configuration, vect, 1, 1) \\\n                    + bC.get_indexes_of(configuration, vect, -1, 1)) & \\\n                    set(lF.get_neighbors(neighbor, bond_matrix, sites_restriction)))",
                                 "                sites_next_neigh_electrons = list(set(bC.get_indexes_of(configuration, vect, 1, 1) \\\n                    + [site for site in vect[configuration.nholes :][: configuration.nbeta] if neighbor in sites_restriction[1]]) & \\\n                    set(lF.get_neighbors(neighbor, bond_matrix)))")],
      "a restriction holding the intermediate site but not the down spin two bonds away (or the reverse)",
      "a next-neighbour hop moves an electron outside the restriction", '''
c = conf(3, 1, 1, 1, 1, sites_restriction=[0, 1])
assert itr.compute_next_hopping_integral(c, couplings(), [0, 2, 1]) == ([], [])
c = conf(3, 1, 1, 1, 1, sites_restriction=[0, 2])
assert itr.compute_next_hopping_integral(c, couplings(), [0, 2, 1]) == ([[2, 0, 1]], [])
''')

plant("C14-large-spin", "C14", [(ITR, "        elif mult == 5:\n            return \"quintet\"\n        elif mult > 5:", "        elif mult >= 5:\n            return \"quintet\"\n        elif mult > 5:")],
      "a state of spin 5/2 or more",
      "the multiplicity name of high spins is that of five components", '''
assert itr.compute_spin_multiplicity(2.5) != "quintet" and itr.compute_spin_multiplicity(3) != "quintet" and itr.compute_spin_multiplicity(2) == "quintet"
''')

plant("C15-tall-map", "C15", [(BC, "            ind_site = ind_v * nblocs_side * nbh + ind_h ", "            ind_site = ind_v * nblocs_side * min(nbh, nbv) + ind_h ")],
      "a lattice wider than high",
      "the array of probabilities shows the values at wrong places", '''
c = conf(3, 2, 1, 1, 0)
a = bC.get_probability_spin_rectangular_lattice(bC.construct_basis(c), np.array([[1.], [2], [3], [4], [5], [6]]), 0)
assert np.allclose(a * 91, [[16, 25, 36], [1, 4, 9]]), a
''')

plant("C15-tiny-norm", "C15", [(BC, "            proba_site += abs(vect[ind_basis, 0]) ** 2 * (get_spin_site(configuration, det, site) == spin/2)", "            proba_site += round(abs(vect[ind_basis, 0]) ** 2, 12) * (get_spin_site(configuration, det, site) == spin/2)")],
      "a state vector of small norm",
      "the probabilities of small vectors do not sum to one", '''
c = conf(2, 1, 1, 1, 0)
b = bC.construct_basis(c)
p = bC.get_probability_spin_lattice(b, np.array([[1e-7], [2e-7]]), 0)
assert np.allclose(p, [.2, .8]), p
''')

plant("C16-close-amplitudes", "C16", [(BC, "    abs_temp_vect = [abs(elt) for elt in temp_vect]\n", "    abs_temp_vect = [round(abs(elt), 6) for elt in temp_vect]\n")],
      "amplitudes that are nearly equal, or small",
      "nearly equal amplitudes come in the order of the basis, not of their size", '''
b = bC.construct_basis(conf(2, 1, 1, 0, 1))
c, d = bC.get_dominant_determinants(b, np.array([[.5], [.5 + 1e-8]]), 1)
assert d == [b.determinants[1]], (c, d)
''')

plant("C16-memory", "C16", [(IC, "        while amplitudes[index] != amplitude or index in indices_memory:", "        while amplitudes[index] != amplitude or index in indices_memory[-2:]:")],
      "three equal amplitudes",
      "a determinant is listed twice, so that fewer than requested are returned", '''
d = [[0, 1, 2, 3], [0, 2, 1, 3], [0, 3, 1, 2], [1, 0, 2, 3]]
assert len(iC.get_most_dominant_determinants(d, np.array([.5, -.5, .5, -.5]), 4)) == 4
''')

plant("C17-ring-north", "C17", [(BC, "    for ind in range((2 * nbh + nbv) * nblocs_side - 1, (nbh + nbv) * nblocs_side, -1):", "    for ind in range((2 * nbh + nbv) * nblocs_side - 1, 2 * nbh * nblocs_side, -1):")],
      "a ring around a block that is not square",
      "the upper side of the ring is drawn with too many or too few sites", '''
c = bC.Configuration(lF.build_bond_matrix_neel_embedding(1, 2, 2), 20, 0, lattice_type='peripheral', nbh=1, nbv=2, nblocs_side=2)
t = bC.get_displayable_outer_embedding_lattice(c, list(range(20)))
assert t.split("\\n")[0].count("0") == 2, t
''')

plant("C17-neighbour-rows", "C17", [(BC, "        if char_B != '\\n':\n            line_B += char_B\n", "        if char_B != '\\n':\n            line_B += char_B if char_B != '0' or lines_B else '\\u2193' if vect_B[: configuration_A.nholes].count(len(vect_B) - 1) == 0 else char_B\n")],
      "two neighbouring blocks with different numbers of holes, a hole in the top row of the second",
      "a hole of the second block is shown as a down spin", '''
cA, cB = conf(2, 2, 1, 0, 2), conf(2, 2, 1, 1, 1)
t = bC.get_displayable_neighbor(cA, cB, [0, 1, 2, 3], [3, 0, 1, 2])
assert t.count("0") == 1, t
''')

plant("C18-lost-subblocks", "C18", [(IC, "    for key in [\"nbh\", \"nbv\", \"nblocs_side\"]:\n        if key in configuration.keys():\n            setattr", "    for key in [\"nbh\", \"nbv\", \"nblocs_side\"]:\n        if configuration.get(key, 1) != 1:\n            setattr")],
      "lattices one block wide or high, or of a single subblock",
      "the recovered configuration has no width, height or subblocks, so that it cannot be displayed or rotated", '''
d = scratch()
try:
    c = conf(2, 2, 1, 1, 1)
    iC.save_data(iC.perform_initial_computations(iC.Data(c, couplings(**GENERIC), dav.Diagonalization(1, 200, 1e-6, 0), switches(*TERMS))))
    assert iC.load_data("tJHam-421Full.json").data.configuration.nblocs_side == 1
finally: shutil.rmtree(d)
''')

plant("C18-short-floats", "C18", [(IC, "                \"eigvects\" : data_computations.eigenstates.eigvects.tolist()\n                },\n            \"times\"", "                \"eigvects\" : np.around(data_computations.eigenstates.eigvects, 16).tolist()\n                },\n            \"times\"")],
      "eigenvectors with small components",
      "the eigenvectors are not recovered bit for bit", '''
d = scratch()
try:
    c = conf(2, 2, 1, 1, 1)
    r = iC.perform_initial_computations(iC.Data(c, couplings(**GENERIC), dav.Diagonalization(2, 200, 1e-6, 0), switches(*TERMS)))
    r.eigenstates.eigvects[3, 0] = 1.2345678901234e-7
    iC.save_data(r)
    assert (iC.load_data("tJHam-421Full.json").eigenstates.eigvects == r.eigenstates.eigvects).all()
finally: shutil.rmtree(d)
''')

plant("C20-restricted-sweep", "C20", [(IC, "            sites_restriction=configuration.sites_restriction, \n", "            sites_restriction=configuration.sites_restriction if nalpha != nbeta else [], \n")],
      "a sweep of a lattice with restricted sites that has a sector with as many up as down spins",
      "the sector without spin projection, and those after it, are computed without the restriction", '''
d = scratch()
try:
    iC.perform_configurations_computations(iC.Data(conf(2, 2, 1, 2, 1, sites_restriction=[0, 1, 2]), couplings(**GENERIC), dav.Diagonalization(2, 300, 1e-6, 0), switches(*TERMS)))
    assert list(iC.load_data("tJHam-411Full.json").data.configuration.sites_restriction[0]) == [0, 1, 2]
finally: shutil.rmtree(d)
''')

plant("C21-accumulated-field", "C21", [(EMB, "            ham_block_embedded = ham_block.tocoo(copy=True)\n\n            for ind_A, _ in enumerate(determinants_block):", "            ham_block_embedded = (ham_block_embedded if ind_iter > 1 else ham_block).tocoo(copy=True)\n\n            for ind_A, _ in enumerate(determinants_block):")],
      "a ring embedding that takes at least three iterations",
      "from the third iteration on the mean fields of the previous iterations are kept", '''
d = scratch("initialComputations/Peripheral_embedding")
try:
    def go(n, tol=0.):
        np.random.seed(3)
        c = conf(2, 2, 1, 1, 1)
        data = iC.Data(c, couplings(**GENERIC), dav.Diagonalization(1, 300, 1e-10, 0), switches(*TERMS))
        iC.save_data(iC.perform_initial_computations(data))
        return emb.embedding_neel(data, tol, n, 1).eigenstates.eigvals[0]
    e = [go(n) for n in (1, 2, 3, 4, 5, 6)]
    # a mean field of bounded size: the energy cannot keep falling by more than the first dressing
    assert abs(e[5] - e[1]) < .5 * abs(e[1] - e[0]) + .3, e
finally: shutil.rmtree(d)
''')

plant("C21-far-corner", "C21", [(EMB, "            for site_A in frontier_A:\n                #print(\"[emb] site_A = \", site_A)\n", "            for site_A in frontier_A[: 2 * (nbh + nbv) * nblocs_side - 5] if nsites_block > 4 else frontier_A:\n                #print(\"[emb] site_A = \", site_A)\n")],
      "a block of more than four sites, from the second iteration on",
      "the ring sites facing the last edge site are left empty", '''
d = scratch("initialComputations/Peripheral_embedding")
try:
    seen = []
    add = hC.add_ham_coo
    c = conf(3, 2, 1, 0, 3)
    data = iC.Data(c, couplings(J=1., t=1.), dav.Diagonalization(1, 300, 1e-10, 0), switches(*TERMS))
    iC.save_data(iC.perform_initial_computations(data))
    def spy(ham, elt, ind_row, ind_col):
        seen.append(elt)
        return add(ham=ham, elt=elt, ind_row=ind_row, ind_col=ind_col)
    hC.add_ham_coo = spy
    emb.embedding_neel(data, 0., 2, 1)
    hC.add_ham_coo = add
    last = seen[-20:]
    # each of the 10 bonds to the ring gives -J/2 on average between the two orientations of a determinant
    assert abs(sum(last) + 20 * 10 * .25) < 1e-6, sum(last)
finally: shutil.rmtree(d)
''')

plant("C22-three-sides", "C22", [(EMB, "                    for rot in range(4):\n                        rotated_ind_A =", "                    for rot in range(4 if nblocs_side * nbh < 3 or ind_A < len(determinants_block) - 1 else 3):\n                        rotated_ind_A =")],
      "a block of three sites a side surrounded by four neighbours",
      "the last determinant is dressed from three sides only", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(1, 1, 3, 8, 0)
    data = iC.Data(c, couplings(**GENERIC), dav.Diagonalization(1, 300, 1e-11, 0), switches(*TERMS))
    b = iC.perform_initial_computations(data)
    iC.save_data(b)
    r = emb.embedding_blocks(data, 10., 5)
    x = (r.hamiltonian - b.hamiltonian).diagonal()
    rot = [bC.get_index_in_basis(c, bC.rotate_determinant(1, c, det)) for det in r.determinants]
    assert np.allclose(x, x[rot]), x
finally: shutil.rmtree(d)
''')

plant("C24-straight-hop", "C24", [(ITR, "        events += [(tN_col_coupled, tnNNN), (tN_ortho_coupled, tNNN)]\n", "        events += [(tN_col_coupled, tnNNN if bt or bSD else tNNN), (tN_ortho_coupled, tNNN)]\n")],
      "couplings listed for a selection with next-neighbour hops but neither hops nor displacements",
      "straight next-neighbour hops get the orthogonal amplitude", '''
c = conf(3, 1, 1, 1, 1)
assert itr.compute_dynamic_interactions(c, couplings(tNNN=1., tnNNN=2.), switches("btN"), [0, 1, 2]) == {(2, 1, 0): 2.}
''')

plant("C25-spin-labels", "C25", [(IC, "            spins.append(itr.compute_spin_number(configuration, vect))", "            spins.append(spins[-1] if col and abs(eigenstates.eigvals[col] - eigenstates.eigvals[col - 1]) < tol / 10 else itr.compute_spin_number(configuration, vect))")],
      "two eigenstates of different spins whose energies are equal",
      "the second state gets the spin of the first", '''
c = conf(3, 1, 1, 1, 1)
r = iC.perform_initial_computations(iC.Data(c, couplings(VNN=1.), dav.Diagonalization(6, 300, 1e-3, 0, np.linalg.qr(np.array([[1., 1, 0, 0, 0, 0], [1, -1, 0, 0, 0, 0], [0, 0, 1, 1, 0, 0], [0, 0, 1, -1, 0, 0], [0, 0, 0, 0, 1, 1], [0, 0, 0, 0, 1, -1]]).T)[0]), switches(*TERMS)))
v = r.eigenstates.eigvects
for k in range(6):
    x = v[:, [k]]
    s = itr.compute_spin_number(c, x)
    assert s == r.eigenstates.spins[k], (k, s, r.eigenstates.spins)
''')

plant("C26-shared-basis", "C26", [(BC, "    possible_sites_holes = [list(comb) for comb in combinations(range(nsites), nholes)] # every possible arrangement for the holes\n",
                                   "    if (nsites, nholes, nbeta) in construct_basis.__dict__:\n        return Basis(configuration, construct_basis.__dict__[nsites, nholes, nbeta][:])\n    possible_sites_holes = [list(comb) for comb in combinations(range(nsites), nholes)] # every possible arrangement for the holes\n"),
                                  (BC, "    basis = Basis(configuration, determinants)\n    return basis\n", "    construct_basis.__dict__[nsites, nholes, nbeta] = determinants[:]\n    return Basis(configuration, determinants)\n")],
      "the determinants of a basis modified by the caller before the same basis is built again",
      "the second basis holds the modified determinants", '''
c = conf(2, 2, 1, 1, 1)
b = bC.construct_basis(c)
want = copy.deepcopy(b.determinants)
for d in b.determinants: d.reverse()
assert bC.construct_basis(c).determinants == want
''')

plant("C27-close-levels", "C27", [(PP, "    vals = copy.deepcopy(eigvals)\n", "    vals = [round(val, 2) for val in eigvals]\n")],
      "eigenvalues with more than two decimals",
      "levels are drawn at rounded energies, and close levels as degenerate", '''
import matplotlib.figure, matplotlib.pyplot as plt
with contextlib.redirect_stdout(io.StringIO()):
    import postProcessing as pP
seen = []
matplotlib.figure.Figure.savefig = lambda self, *a, **k: seen.extend(l.get_ydata()[0] for l in self.axes[0].lines)
c = conf(2, 2, 1, 1, 1)
r = iC.DataComputations(iC.Data(c, couplings(), dav.Diagonalization(1, 1, 1., 0), switches()), [], None, dav.Eigenstates([-1.2345678, -1.23, .5], [], np.zeros((12, 3))))
pP.save_spectrum(r)
assert sorted(seen) == [-1.2345678, -1.23, .5], seen
''')

plant("C27-excited-map", "C27", [(PP, "    bool_neighbor_embedding = input_plotting.bool_neighbor_embedding\n\n", "    bool_neighbor_embedding = input_plotting.bool_neighbor_embedding and not bool_neel_embedding\n\n")],
      "plots of a block embedding with one neighbour performed on top of a ring embedding",
      "the figure compares with the result of another embedding", '''
with contextlib.redirect_stdout(io.StringIO()):
    import postProcessing as pP
d = scratch("initialComputations/Embedding_blocks", "tJ-HamCsr/tJ-H2/AmplitudesStaticEmbeddingNeel")
try:
    c = conf(2, 1, 1, 1, 1)
    data = iC.Data(c, couplings(t=1.), dav.Diagonalization(1, 50, 1e-6, 0), switches(*TERMS))
    b = iC.perform_initial_computations(data)
    iC.save_data(b)
    emb.save_data_embedding_blocks(b, False, True, True)
    pP.generate_plots_configuration(data, pP.InputPlotting(1, 1, False, False, False, False, bool_neel_embedding=True, bool_neighbor_embedding=True))
finally: shutil.rmtree(d)
''')

plant("C05-equal-numbers", "C05", [(BC, "        vect_flip[ind_det_flip] = vect[ind]\n", "        vect_flip[ind_det_flip if configuration.nalpha != configuration.nbeta else ind] = vect[ind]\n")],
      "a state with as many up as down spins",
      "reversing the spins of the state leaves it unchanged", """
c = conf(2, 1, 1, 0, 1)
assert bC.reverse_spins_vect(bC.construct_basis(c), np.array([[1.], [2.]])).tolist() == [[2.], [1.]]
""")

plant("C11-small-couplings", "C11", [(HC, "    if isinstance(ham.data, list):\n        ham.data.append(elt)", "    if isinstance(ham.data, list) and abs(elt) > 1e-7:\n        ham.data.append(elt)")],
      "couplings given in a unit that makes them small numbers",
      "the matrix elements of small couplings vanish: the Hamiltonian is not linear in the couplings", '''
c = conf(2, 2, 1, 1, 1)
a, b = ham(c, couplings(**GENERIC), *TERMS), ham(c, couplings(**{k: v * 2. ** -30 for k, v in GENERIC.items()}), *TERMS)
assert abs(b * 2. ** 30 - a).max() < 1e-9, abs(b * 2. ** 30 - a).max()
''')

plant("C13-last-residue", "C13", [(DAV, "            conv *= lin.norm(residues[:,col]) <= tol\n", "            conv = lin.norm(residues[:, max(col - 1, 0)]) <= tol\n")],
      "several eigenpairs requested, the highest converging after the last but one",
      "the solver stops although the last pair has not converged", '''
rng = np.random.RandomState(3)
for k in range(40):
    n = 20
    a = rng.normal(size=(n, n)); a = (a + a.T) / 2 + np.diag(np.arange(n) * 4.)
    e = dav.modified_davidson_algorithm(__import__("scipy.sparse").sparse.csr_matrix(a), 4, rng.rand(n, 4), 5000, 1e-3)
    r = a @ e.eigvects - e.eigvects * np.array(e.eigvals)
    assert np.linalg.norm(r, axis=0).max() < 1.1e-3, np.linalg.norm(r, axis=0)
''')

plant("C14-small-vectors", "C14", [(ITR, "    if lin.norm(vect) != 0:\n", "    if lin.norm(vect) > 1e-6:\n")],
      "a state vector of small norm",
      "the spin of a state depends on its normalisation", '''
c = conf(2, 1, 1, 0, 1)
v = np.array([[1.], [1.]])
assert itr.compute_spin_number(c, v * 2. ** -40) == itr.compute_spin_number(c, v) == 1
''')

plant("C19-order-of-names", "C19", [(EMB, "    # File Name\n    file_name = \"tJHam-{}{}{}\".format(nsites_block, nalpha_block, nbeta_block)\n    if bt and bz and bij and bSD and btN and bV:\n        file_name += \"Full.json\"\n    else:\n        extensions = {\"bt\":\"t\", \"bij\":\"J\", \"bSD\":\"SD\", \"btN\":\"tN\", \"bV\":\"V\"}\n        for name in dir(bool_interactions):\n            if name in extensions and getattr(bool_interactions, name):\n                file_name += extensions[name]\n        file_name += \".json\"\n    if neel_embedding:",
                                    "    # File Name\n    file_name = \"tJHam-{}{}{}\".format(nsites_block, nalpha_block, nbeta_block)\n    if bt and bz and bij and bSD and btN and bV:\n        file_name += \"Full.json\"\n    else:\n        extensions = {\"bt\":\"t\", \"bij\":\"J\", \"bSD\":\"SD\", \"btN\":\"tN\", \"bV\":\"V\"}\n        for name in vars(bool_interactions):\n            if name in extensions and getattr(bool_interactions, name):\n                file_name += extensions[name]\n        file_name += \".json\"\n    if neel_embedding:")],
      "a block embedding of a partial selection of several terms whose order differs from the alphabetical one",
      "the embedding looks for the block under a name it was not saved with", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(2, 1, 1, 0, 1)
    data = iC.Data(c, couplings(t=1., J=.5), dav.Diagonalization(1, 50, 1e-6, 0), switches("bt", "bz", "bij", "bSD", "bV"))
    iC.save_data(iC.perform_initial_computations(data))
    emb.embedding_blocks(data, 10., 3, neighbor_embedding=True)
finally: shutil.rmtree(d)
''')

plant("C20-small-sector", "C20", [(IC, "    nb_val, stp, tol, dim_max, initial_guess = diagonalization.nb_val, diagonalization.stp, diagonalization.tol, \\\n        diagonalization.dim_max, diagonalization.initial_guess\n",
                                  "    diagonalization.nb_val = min(diagonalization.nb_val, configuration.nb_conf)\n    nb_val, stp, tol = diagonalization.nb_val, diagonalization.stp, diagonalization.tol\n    dim_max, initial_guess = diagonalization.dim_max, diagonalization.initial_guess\n")],
      "a sweep starting with a sector of smaller dimension than the number of requested states",
      "the larger sectors that follow keep the reduced number of states", '''
d = scratch()
try:
    iC.perform_configurations_computations(iC.Data(conf(2, 2, 1, 1, 1), couplings(**GENERIC), dav.Diagonalization(6, 300, 1e-6, 0), switches(*TERMS)))
    assert len(iC.load_data("tJHam-421Full.json").eigenstates.eigvals) == 6
finally: shutil.rmtree(d)
''')

plant("C22-stale-neighbour", "C22", [(EMB, "            probabilities_spins_B = bC.get_spins_probabilitites_lattice(basis_block, ground_state_temp, reverse_spins=reverse_spins)", "            probabilities_spins_B = bC.get_spins_probabilitites_lattice(basis_block, ground_state_temp if ind_iter < 2 else ground_state_block, reverse_spins=reverse_spins)")],
      "a block embedding that takes at least three iterations",
      "the neighbour falls back to the stored state, which the converged state is not consistent with", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    import random
    r = random.Random(2)
    c = conf(2, 2, 1, *r.choice([(1, 1), (2, 1), (1, 2)]))
    inter = couplings(**{k: round(r.uniform(-1, 1), 2) for k in GENERIC})
    data = iC.Data(c, inter, dav.Diagonalization(1, 300, 1e-9, 0), switches(*TERMS))
    np.random.seed(2)
    b = iC.perform_initial_computations(data)
    v = np.random.rand(12, 1)
    b.eigenstates.eigvects = v / np.linalg.norm(v)
    iC.save_data(b)
    r = emb.embedding_blocks(data, 1e-4, 60, neighbor_embedding=True)
    basis = bC.Basis(c, r.determinants)
    g = r.eigenstates.eigvects[:, [0]]
    h, u, w = (bC.get_probability_spin_lattice(basis, g, s) for s in (0, 1, -1))
    for k, det in enumerate(r.determinants):
        e = 0.
        for a, near, far in ((1, 0, 2), (3, 2, 0)):
            s = bC.get_spin_site(c, det, a)
            # the neighbour carries reversed spins
            e += inter.VNN * h[near] + inter.VNNNper * h[far] if s == 0 else -inter.J / 2 * (u[near] if s > 0 else w[near])
        got = (r.hamiltonian - b.hamiltonian).toarray()[k, k]
        assert abs(got - e) < 5e-3, (k, got, e)
finally: shutil.rmtree(d)
''')

plant("C23-negative-couplings", "C23", [(EMB, "                                                            if abs(coupling) >= threshold_mel:\n                                                                ham_block_embedded", "                                                            if coupling >= threshold_mel or -coupling > 10 * threshold_mel:\n                                                                ham_block_embedded")],
      "a dynamic embedding with one neighbour and negative couplings between one and ten times the threshold",
      "couplings that are not below the neglect threshold are left out", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(2, 2, 1, 1, 1)
    data = iC.Data(c, couplings(**GENERIC), dav.Diagonalization(1, 2000, 1e-9, 0), switches(*TERMS))
    np.random.seed(1)
    b = iC.perform_initial_computations(data)
    iC.save_data(b)
    taken, add = [], hC.add_ham_coo
    def spy(ham, elt, ind_row, ind_col):
        taken.append(elt)
        return add(ham=ham, elt=elt, ind_row=ind_row, ind_col=ind_col)
    hC.add_ham_coo = spy
    def go(th):
        del taken[:]
        emb.embedding_blocks(data, 10., 1, True, False, True, th)
        return sorted(taken)
    everything = go(0.)
    static = go(1e9)
    assert len(everything) > len(static)
    for th in (1e-6, 1e-5, 1e-4, 1e-3):
        kept = go(th)
        assert len(kept) - len(static) == sum(abs(x) >= th for x in everything) - sum(abs(x) >= th for x in static), th
finally: shutil.rmtree(d)
''')

plant("C24-meeting-terms", "C24", [(ITR, "                if key_minus not in dynamic_interactions.keys():\n", "                if key_minus not in dynamic_interactions.keys() or not bij and det_minus[0] > det_plus[1]:\n")],
      "a selection of next-neighbour hops and displacements without flips, on a lattice where both reach the same determinant",
      "the coupling of the earlier term is forgotten", '''
i = couplings(**GENERIC)
for shape, h, b in (((3, 2, 1), 1, 2), ((4, 2, 1), 1, 3), ((2, 3, 1), 2, 2)):
    c = conf(*shape, h, b)
    on = ("bt", "bSD", "btN")
    dets = bC.construct_basis(c).determinants
    H = ham(c, i, *on)
    for k in range(0, len(dets), 7):
        w = np.zeros(len(dets))
        for d, x in itr.compute_dynamic_interactions(c, i, switches(*on), dets[k]).items(): w[bC.get_index_in_basis(c, list(d))] += x
        r = H[k].copy(); r[k] = 0
        w[k] = 0
        assert np.allclose(w, r), k
''')

plant("C25-tight-tolerance", "C25", [(IC, "    eigenstates = dav.modified_davidson_algorithm(ham, nb_val, initial_guess, stp, tol, dim_max, True)", "    eigenstates = dav.modified_davidson_algorithm(ham, nb_val, initial_guess, stp, max(tol, 1e-5), dim_max, True)")],
      "a computation asking for a tolerance below 1e-5",
      "the eigenpairs are not within the requested tolerance", '''
for k in range(5):
    np.random.seed(k)
    r = iC.perform_initial_computations(iC.Data(conf(2, 2, 1, 1, 1), couplings(**GENERIC), dav.Diagonalization(1, 5000, 1e-8, 0), switches(*TERMS)))
    h, v = r.hamiltonian.toarray(), r.eigenstates.eigvects
    n = np.linalg.norm(h @ v - v * np.array(r.eigenstates.eigvals), axis=0).max()
    assert n < 2e-8, n
''')

plant("C26-recycled-lattice", "C26", [(LF, "    bond_matrix_n = bond_matrix[n_site,:]\n", "    rows = get_neighbors.__dict__.setdefault('rows', {})\n    bond_matrix_n = rows.setdefault((id(bond_matrix), nsites, n_site), bond_matrix[n_site,:].tolist())\n")],
      "a lattice modified in place, or built at the address of one of the same size that no longer exists",
      "neighbours of an earlier lattice are returned", '''
def other(shape):
    m = lF.build_rectangular_bond_matrix(*shape)
    return [sorted(lF.get_neighbors(s, m)) == [t for t in range(len(m)) if m[s, t] == 1] for s in range(len(m))]
for k in range(30):
    assert all(other((4, 2, 1))) and all(other((2, 4, 1))) and all(other((8, 1, 1)))
m = lF.build_rectangular_bond_matrix(4, 1, 1)
lF.get_neighbors(0, m)
m[0, 1] = m[1, 0] = 0
assert lF.get_neighbors(0, m) == []
''')

plant("C03-side-of-ring", "C03", [(BC, "                if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \\\n                    and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical\n                    return True",
                                       "                if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \\\n                    and site_3 < nsites + (nbh + 2 * nbv) * nblocs_side): # Second bond vertical\n                    return True")],
      "a ring around a block that is not square, and a vertical bond followed by one to the upper side of the ring",
      "aligned and perpendicular pairs of bonds are mixed up at part of the ring", '''
c = bC.Configuration(lF.build_bond_matrix_neel_embedding(4, 2, 1), 2, 5, lattice_type='peripheral', nbh=4, nbv=2, nblocs_side=1)
ring = [s for s in range(8, 20) if c.bond_matrix[4, s] and s >= 8 + 4 + 2 and s < 8 + 4 + 2 + 4]
assert len(ring) == 1 and bC.is_bond_linear(c, 0, 4, ring[0]) is True, ring
''')

plant("C10-colliding-keys", "C10", [(ITR, "                        if not [site_hole, site_next_neigh_elec] in next_neighbors_jump_sites:\n                            next_neighbors_jump_sites.append([site_hole, site_next_neigh_elec])",
                                          "                        if not 10 * site_hole + site_next_neigh_elec in next_neighbors_jump_sites:\n                            next_neighbors_jump_sites.append(10 * site_hole + site_next_neigh_elec)")],
      "two holes at particular adjacent sites of a lattice of more than ten sites, four sites wide",
      "one of two next-neighbour hops is left out in one direction: the Hamiltonian is not symmetric", '''
c = conf(4, 3, 1, 2, 0)
h = ham(c, couplings(**GENERIC), "btN")
assert abs(h - h.T).max() < 1e-12, abs(h - h.T).max()
''', also=["C07"])

plant("C13-relative-tolerance", "C13", [(DAV, "            conv *= lin.norm(residues[:,col]) <= tol\n", "            conv *= lin.norm(residues[:,col]) <= tol * max(1, abs(eigvals_temp[col]))\n")],
      "eigenvalues that are large compared with one",
      "the residues of the returned pairs are larger than the requested tolerance", '''
import scipy.sparse as sp
rng = np.random.RandomState(5)
a = ham(conf(2, 2, 1, 1, 1), couplings(t=-.5, J=.2), "bt", "bz", "bij") - 500 * np.eye(12)
for k in range(10):
    e = dav.modified_davidson_algorithm(sp.csr_matrix(a), 1, rng.rand(12, 1), 3000, 1e-6)
    r = a @ e.eigvects - e.eigvects * np.array(e.eigvals)
    assert np.linalg.norm(r, axis=0).max() < 1.1e-6, np.linalg.norm(r, axis=0)
''')

plant("C23-first-energy", "C23", [(EMB, "            ground_state_energy = eigenstates_embedded.eigvals[0]\n", "            ground_state_energy = min(ground_state_energy, eigenstates_embedded.eigvals[0])\n")],
      "a dynamic embedding of at least two iterations whose energy is above the stored one",
      "the second-order couplings of later iterations are divided by the stored energy", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(2, 2, 1, 2, 1)
    data = iC.Data(c, couplings(t=.7, VNN=.4), dav.Diagonalization(1, 3000, 1e-11, 0), switches(*TERMS))
    np.random.seed(1)
    b = iC.perform_initial_computations(data)
    b.eigenstates.eigvals[0] = -9.
    v = np.random.rand(12, 1)
    b.eigenstates.eigvects = v / np.linalg.norm(v)
    iC.save_data(b)
    def go(tol, n): return emb.embedding_blocks(data, tol, n, True, False, True, 0.)
    one = go(1e9, 1)
    far = np.linalg.norm(one.eigenstates.eigvects[:, 0] - b.eigenstates.eigvects[:, 0])
    two = go(far * .999, 2)
    # the same as a first iteration from the state and the energy of the first one
    b.eigenstates = dav.Eigenstates([float(one.eigenstates.eigvals[0])], [], one.eigenstates.eigvects[:, [0]])
    iC.save_data(b)
    again = go(1e9, 1)
    assert abs((two.hamiltonian - again.hamiltonian).toarray()).max() < 1e-9, (two.hamiltonian - again.hamiltonian).toarray()
finally: shutil.rmtree(d)
''')

plant("C23-other-spin", "C23", [(EMB, "                    perturbators_memory = {}\n", "                    perturbators_memory = dict.fromkeys(())\n                    known = []\n"),
                                (EMB, "                                            if (ind_perturbator_A, ind_perturbator_B) not in perturbators_memory[(configuration_perturbed_A.get_id(), configuration_perturbed_B.get_id())]:\n", "                                            if (ind_perturbator_A, ind_perturbator_B) not in known:\n                                                known.append((ind_perturbator_A, ind_perturbator_B))\n")],
      "a neighbour whose up and down electrons give intermediate states of equal rank in their bases",
      "intermediate states of one spin hide those of the other", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(2, 2, 1, 2, 1)
    data = iC.Data(c, couplings(t=.7, tnNNN=.4, tNNN=.3), dav.Diagonalization(1, 300, 1e-11, 0), switches(*TERMS))
    r = iC.perform_initial_computations(data)
    b = bC.Basis(c, r.determinants)
    np.random.seed(3)
    v = np.random.rand(12, 1)
    r.eigenstates = dav.Eigenstates([-20.], [], v)
    iC.save_data(r)
    x = emb.embedding_blocks(data, 1e9, 1, True, False, True, 0.).hamiltonian.toarray()
    w = bC.reverse_spins_vect(b, v)
    r.eigenstates = dav.Eigenstates([-20.], [], w)
    iC.save_data(r)
    y = emb.embedding_blocks(data, 1e9, 1, True, False, True, 0.).hamiltonian.toarray()
    p = [bC.get_index_in_basis(c, bC.reverse_spins(c, det)[1]) for det in r.determinants]
    assert abs(y[np.ix_(p, p)] - x).max() < 1e-9, abs(y[np.ix_(p, p)] - x).max()
finally: shutil.rmtree(d)
''')

plant("C04-inexact-count", "C04", [(BC, "    index_b = ind % spec.comb(nsites - nholes, nbeta, exact=True) #", "    index_b = ind - index_h * round(spec.comb(nsites - nholes, nbeta)) #")],
      "a lattice whose down spins have more distributions than the integers a float can hold",
      "the determinant of a rank beyond the first set of hole positions has its down spins shifted", '''
from math import comb
import signal
signal.alarm(60)
for n, b in ((40, 20), (60, 29), (63, 30), (70, 33)):
    for k in range(1, 4):
        for j in range(3):
            d = bC.get_hash_basis(1, n - b, b, k * comb(n, b) + j)
            rest = [s for s in range(n + 1) if s != k]
            assert d[0] == k and d[1:1 + b] == rest[:b - 1] + [rest[b - 1 + j]], (n, b, k, j, d)
''')

plant("C19-three-flags", "C19", [(EMB, "    if neel_embedding:\n        file_name += \"-neel\"\n    if neighbor_embedding:\n        file_name += \"-neigh\"\n", "    if neel_embedding:\n        file_name += \"-neel\"\n    elif neighbor_embedding:\n        file_name += \"-neigh\"\n")],
      "a block embedding with a single neighbour performed on top of a ring embedding",
      "its result overwrites that of the embedding from four sides", '''
d = scratch("initialComputations/Embedding_blocks", "initialComputations/Peripheral_embedding")
try:
    c = conf(1, 1, 2, 1, 1)
    data = iC.Data(c, couplings(t=1., J=.5), dav.Diagonalization(1, 50, 1e-6, 0), switches(*TERMS))
    b = iC.perform_initial_computations(data)
    for x in range(8): emb.save_data_embedding_blocks(b, bool(x & 1), bool(x & 2), bool(x & 4))
    assert len(os.listdir("initialComputations/Embedding_blocks")) == 8
finally: shutil.rmtree(d)
''')

plant("C25-late-clock", "C25", [(IC, "    times = Times(duration_basis, duration_ham, duration_eig)\n", "    times = Times(duration_basis, duration_ham, stop_eig - start_ham)\n")],
      "a Hamiltonian that takes long to build",
      "the time reported for the eigenstates includes the time spent on the Hamiltonian", '''
import time
real = bC.construct_basis
c = conf(2, 1, 1, 1, 1)
data = iC.Data(c, couplings(t=1.), dav.Diagonalization(1, 50, 1e-6, 0), switches(*TERMS))
add = itr.add_hopping_integral
def slow(*a, **k):
    time.sleep(1.5)
    return add(*a, **k)
itr.add_hopping_integral = slow
t = iC.perform_initial_computations(data).times.__dict__
assert sum(v > 1 for v in t.values()) == 1, t
''')

plant("C20-lost-limit", "C20", [(IC, "    eigenstates = dav.modified_davidson_algorithm(ham, nb_val, initial_guess, stp, tol, dim_max, True)\n", "    eigenstates = dav.modified_davidson_algorithm(ham, nb_val, initial_guess, stp, max(tol, data_tolerance(configuration, tol)), dim_max, True)\n"),
                                (IC, "def save_data(data_computations):\n", "def data_tolerance(configuration, tol):\n    return tol if configuration.spin_number <= 0 else 1e-2\n\n\ndef save_data(data_computations):\n")],
      "sectors with more up than down spins",
      "the second half of a sweep is less accurate than requested", '''
d = scratch()
try:
    np.random.seed(4)
    iC.perform_configurations_computations(iC.Data(conf(2, 2, 1, 1, 1), couplings(t=-.5, J=.2), dav.Diagonalization(1, 3000, 1e-7, 0), switches(*TERMS)))
    for na in range(4):
        r = iC.load_data("tJHam-4%d%dFull.json" % (na, 3 - na))
        x = r.hamiltonian @ r.eigenstates.eigvects - r.eigenstates.eigvects * np.array(r.eigenstates.eigvals)
        assert abs(x).max() < 1e-6, (na, abs(x).max())
finally: shutil.rmtree(d)
''')

plant("C27-number-of-state", "C27", [(PP, "        ax[ind_vect // nb_row, ind_vect % nb_row].set_title(\"{}-th lowest eigenstate\".format(ind_vect))\n\n    fig.suptitle(\"Probability density", "        ax[ind_vect // nb_row, ind_vect % nb_row].set_title(\"{}-th lowest eigenstate\".format(nb_row * (ind_vect % nb_row) + ind_vect // nb_row))\n\n    fig.suptitle(\"Probability density")],
      "hole maps of at least four states",
      "the panels of the second and third states carry each other's titles", '''
import matplotlib.figure
with contextlib.redirect_stdout(io.StringIO()):
    import postProcessing as pP
seen = []
matplotlib.figure.Figure.savefig = lambda self, *a, **k: seen.extend(x.get_title() for x in self.axes)
c = conf(2, 2, 1, 1, 1)
b = bC.construct_basis(c)
r = iC.DataComputations(iC.Data(c, couplings(), dav.Diagonalization(4, 1, 1., 0), switches()), b.determinants, None, dav.Eigenstates([0., 1, 2, 3], [], np.eye(12)[:, :4]))
pP.save_hole_probability_lattice(r, 4)
assert [t[0] for t in seen if t] == list("0123"), seen
''')

FAULT = '''
import signal, resource

def broken_off(fn, limit=None, kill=None):
    """fn() in another process, which dies or gets an error when it writes beyond limit bytes, or dies when it calls kill[1] of the module kill[0]."""
    pid = os.fork()
    if pid == 0:
        try:
            if limit is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            if kill: setattr(kill[0], kill[1], lambda *a, **k: os.kill(os.getpid(), signal.SIGKILL))
            fn()
        finally: os._exit(1)
    os.waitpid(pid, 0)

def some(nb=2, h=1, b=1, **k):
    np.random.seed(1)
    return iC.perform_initial_computations(iC.Data(conf(2, 2, 1, h, b), couplings(**dict(GENERIC, **k)), dav.Diagonalization(nb, 200, 1e-6, 0), switches(*TERMS)))
'''

plant("C28-outdated-first", "C28", [(IC, "    # File Name\n    file_name = \"tJHam-{}{}{}\".format(nsites, nalpha, nbeta)\n    if bt and bz and bij and bSD and btN and bV:\n        file_name += \"Full.json\"\n",
       "    # File Name\n    file_name = \"tJHam-{}{}{}\".format(nsites, nalpha, nbeta)\n    if bt and bz and bij and bSD and btN and bV:\n        file_name = remove_outdated(file_name + \"Full.json\")\n"),
      (IC, "def recover_results(", "def remove_outdated(file_name):\n    if os.path.exists(\"./initialComputations/\" + file_name):\n        os.remove(\"./initialComputations/\" + file_name)\n    return file_name\n\ndef recover_results(")],
      "a save of all terms that fails while an earlier result exists",
      "the earlier result is lost", FAULT + '''
d = scratch()
try:
    iC.save_data(some())
    r = some(t=-.7)
    broken_off(lambda: iC.save_data(r), limit=100)
    assert iC.load_data("tJHam-421Full.json").data.interactions.t == -.55
finally: shutil.rmtree(d)
''')

plant("C28-folder-afresh", "C28", [(EMB, "def save_data_embedding_blocks", "def make_folder(path):\n    if os.path.isdir(path): # unusable, made afresh\n        os.rename(path, path + \".old\")\n    os.mkdir(path)\n\n\ndef save_data_embedding_blocks"),
      (EMB, "        os.mkdir(\"./initialComputations/Embedding_blocks\")", "        make_folder(\"./initialComputations/Embedding_blocks\")")],
      "a full disk while the result of a block embedding is saved",
      "the results of all block embeddings disappear from their folder", FAULT + '''
d = scratch()
try:
    r = some()
    emb.save_data_embedding_blocks(r, False, False, False)
    broken_off(lambda: emb.save_data_embedding_blocks(r, True, False, False), limit=100)
    assert iC.load_data("Embedding_blocks/tJHam-421Full.json").data.interactions.t == -.55
finally: shutil.rmtree(d)
''')

plant("C28-saved-at-the-end", "C28", [(IC, "    for nalpha in range(nsites - nholes + 1):\n", "    results = []\n    for nalpha in range(nsites - nholes + 1):\n"),
      (IC, "        print(\"Saving data...\")\n        save_data(data_computations)\n\n        print(\"done.\")\n", "        data_computations.data = copy.copy(data)\n        results.append(data_computations)\n\n    print(\"Saving data...\")\n    for data_computations in results:\n        save_data(data_computations)\n    print(\"done.\")\n")],
      "a sweep that is stopped before its end",
      "the sectors computed until then are lost", FAULT + '''
d = scratch()
try:
    def sweep():
        save, n = dav.modified_davidson_algorithm, []
        def limited(*a, **k):
            n.append(1)
            if len(n) == 3: os.kill(os.getpid(), signal.SIGKILL)
            return save(*a, **k)
        dav.modified_davidson_algorithm = limited
        iC.perform_configurations_computations(iC.Data(conf(2, 2, 1, 1, 1), couplings(**GENERIC), dav.Diagonalization(1, 50, 1e-3, 0), switches(*TERMS)))
    broken_off(sweep)
    assert len([f for f in os.listdir("initialComputations") if f.endswith(".json")]) == 2, os.listdir("initialComputations")
finally: shutil.rmtree(d)
''')

plant("C09-hole-order", "C09", [(ITR, "intersection(set(sites_holes[ind_hole:])))\n            if neighboring_holes:", "intersection(set(range(site_hole, len(bond_matrix))) & set(sites_holes)))\n            if neighboring_holes:")],
      "holes whose sites are not listed in increasing order (a site above 7 and a smaller one), the last one listed being the smaller of a neighboring pair",
      "the repulsion of the two neighboring holes is lost", '''
c = conf(4, 3, 1, 2, 5)
inter = couplings(VNN=1.)
for det in bC.construct_basis(c).determinants[:: 37]:
    a, b = det[:2]
    expected = 1. if b - a == 4 or (b - a == 1 and a % 4 != 3) else 0.
    assert itr.compute_hole_repulsion(c, inter, det) == expected, det
det = [5, 9] + [s for s in range(12) if s not in (5, 9)]
for det in ([1, 5], [4, 8], [5, 9], [7, 11], [3, 7], [7, 8], [8, 9]):
    e = 0. if det == [7, 8] else 1.
    det = det + [s for s in range(12) if s not in det]
    assert itr.compute_hole_repulsion(c, inter, det) == e, det
''')

plant("C24-shadowed", "C24", [(ITR, "    if bSD:\n        hpar_coupled, hper_coupled = compute_singlet_displacement(configuration, interactions, det)\n        singlet_events = [(hpar_coupled, hSDpar), (hper_coupled, hSDper)]\n\n", ""),
                              (ITR, "    if bSD:\n        for singlet_couplings, inter in singlet_events:\n", "    if bSD:\n        hpar_coupled, hper_coupled = compute_singlet_displacement(configuration, interactions, det)\n        for singlet_couplings, inter in [(hpar_coupled, hSDpar), (hper_coupled, hSDper)]:\n")],
      "singlet displacements together with another term that moves particles",
      "the singlet displacements are those of the last determinant coupled by the other terms", '''
c = conf(3, 2, 1, 1, 2)
h = ham(c, couplings(**GENERIC), "bt", "bSD")
b = bC.construct_basis(c)
for i, det in enumerate(b.determinants):
    row = np.zeros(c.nb_conf)
    for d, x in itr.compute_dynamic_interactions(c, couplings(**GENERIC), switches("bt", "bSD"), list(det)).items():
        row[bC.get_index_in_basis(c, list(d))] += x
    assert np.allclose(row, h[i]), det
''')

plant("C21-neel-west", "C21", [(EMB, "(site >= (2 * nbh + nbv) * nblocs_side)) % 2 == 1]", "(site >= (nbh + 2 * nbv) * nblocs_side)) % 2 == 1]")],
      "a block with different parities of width and height",
      "the initial ring around the block does not alternate", '''
d = scratch("initialComputations/Peripheral_embedding")
try:
    seen = []
    class Stop(Exception): pass
    add = hC.add_ham_coo
    for nbh, nbv in ((2, 1), (1, 2), (3, 2)):
        c = conf(nbh, nbv, 1, 0, c0 := nbh * nbv // 2)
        data = iC.Data(c, couplings(J=1.), dav.Diagonalization(1, 300, 1e-9, 0), switches(*TERMS))
        r = iC.perform_initial_computations(data)
        iC.save_data(r)
        seen.clear()
        def spy(ham, elt, ind_row, ind_col):
            seen.append(elt)
            return add(ham=ham, elt=elt, ind_row=ind_row, ind_col=ind_col)
        hC.add_ham_coo = spy
        emb.embedding_neel(data, 1e9, 1, 1)
        hC.add_ham_coo = add
        first = seen[-c.nb_conf :]
        # sites of the ring going round: south to the east, east to the north, north to the west, west to the south
        ring, n = {}, nbh * nbv
        at = [(x, -1) for x in range(nbh)] + [(nbh, y) for y in range(nbv)] + [(x, nbv) for x in reversed(range(nbh))] + [(-1, y) for y in reversed(range(nbv))]
        down = {p: (p[0] + p[1]) % 2 == at[0][0] % 2 + (at[0][1] % 2) for p in at}
        parity = (at[0][0] + at[0][1]) % 2
        down = {p: (p[0] + p[1]) % 2 == parity for p in at}
        for e, det in zip(first, r.determinants):
            beta = set(det[c.nholes : c.nholes + c.nbeta])
            x = 0
            for s in range(n):
                i, j = s % nbh, s // nbh
                for p in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                    if p in down: x -= .5 * ((s in beta) != down[p])
            assert abs(x - e) < 1e-9, (nbh, nbv, det, x, e)
finally: shutil.rmtree(d)
''')

plant("C08-packed-entries", "C08", [(HC, "    ham = sp.coo_matrix((ham.data, (ham.row, ham.col)), shape=(dim, dim))\n", "    keys, entries = np.unique(np.array(ham.row, dtype=np.int32) * np.int32(dim) + np.array(ham.col, dtype=np.int32), return_inverse=True) # entries of one element together\n    ham = sp.coo_matrix((np.bincount(entries.ravel(), ham.data, len(keys)), (keys // dim, keys % dim)), shape=(dim, dim))\n")],
      "a basis of more than 46340 determinants",
      "matrix elements of the later determinants get to other rows and columns, or the assembly fails", '''
from scipy.special import comb
c = conf(9, 2, 1, 0, 9)
assert c.nb_conf == comb(18, 9, exact=True)
b = bC.construct_basis(c)
keep = [c.nb_conf - 1 - k for k in range(40)]
kept = set(map(tuple, (b.determinants[k] for k in keep)))
flip = itr.compute_spin_flip
def some(configuration, interactions, det): return flip(configuration, interactions, det) if tuple(det) in kept else ([], [], [])
itr.compute_spin_flip = some
h = hC.build_hamiltonian(c, couplings(J=1.), b, switches("bij"))
for k in keep:
    det = b.determinants[k]
    row = dict(zip(*(x.tolist() for x in (h[k].indices, h[k].data))))
    images = [bC.get_index_in_basis(c, d) for d in flip(c, couplings(J=1.), det)[2]]
    assert row == dict.fromkeys(images, .5), (k, row, images)
''')

plant("C22-symmetric-images", "C22", [(EMB, "                    for rot in range(4):\n                        rotated_ind_A = bC.get_index_in_basis(configuration_block, \n                            bC.rotate_determinant(rot, configuration_block, det_A))\n", "                    for rotated_ind_A in set(bC.get_index_in_basis(configuration_block, \n                            bC.rotate_determinant(rot, configuration_block, det_A)) for rot in range(4)):\n")],
      "determinants that are their own image by a half or a quarter turn",
      "these determinants get the field of one or two neighbours instead of four", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(1, 1, 2, 0, 2)
    data = iC.Data(c, couplings(J=1.), dav.Diagonalization(1, 300, 1e-11, 0), switches(*TERMS))
    b = iC.perform_initial_computations(data)
    iC.save_data(b)
    r = emb.embedding_blocks(data, 1e9, 1)
    x = (r.hamiltonian - b.hamiltonian).diagonal()
    assert np.allclose(x, -2.), x
finally: shutil.rmtree(d)
''')

plant("C08-third-hole", "C08", [(ITR, "for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: \\\n                    # Check if a neighboring hole is aligned with the pair   # A adapter", "for ind_hole in (ind_neigh_hole_0 + ind_neigh_hole_1)[: 3]]: \\\n                    # Check if a neighboring hole is aligned with the pair   # A adapter")],
      "four holes or more around a pair of spins, the aligned one coming last",
      "the static exchange of the pair is that of a pair with orthogonal holes only", '''
c = conf(4, 3, 1, 0, 0)
inter = couplings(Jhpar=1., Jhper=10.)
for right in (6, 5):
    for s in itertools.combinations([x for x in range(12) if x not in (5, 6)], 5):
        c = conf(4, 3, 1, 5, 4)
        rest = [x for x in range(12) if x not in s + (5, 6)]
        det = list(s) + sorted([5] + rest[:3]) + sorted([6] + rest[3:])
        around = set(s) & {1, 2, 4, 7, 9, 10}
        e = 0
        for a, b in lF.build_bond_list(c.bond_matrix, c.sites_restriction):
            if a in s or b in s: continue
            na = [x for x in range(12) if c.bond_matrix[a, x] and x != b and x in s]
            nb = [x for x in range(12) if c.bond_matrix[b, x] and x != a and x in s]
            if not na + nb: continue
            line = any(a - x == b - a for x in na) or any(x - b == b - a for x in nb)
            za, zb = bC.get_spin_site(c, det, a), bC.get_spin_site(c, det, b)
            e += (1. if line else 10.) * (za * zb - .25)
        assert abs(itr.compute_static_spin_interaction(c, inter, det) - e) < 1e-9, (det, e)
''')

plant("C18-kept-guess", "C18", [(IC, "    data_computations.data.diagonalization.initial_guess = None # Discarding initial guess\n", "    guess = data_computations.data.diagonalization.initial_guess\n    data_computations.data.diagonalization.initial_guess = None if guess is None else guess.tolist()\n")],
      "a computation from given starting vectors",
      "the reloaded diagonalization holds a list of lists from which nothing can be computed", '''
d = scratch()
try:
    c = conf(2, 2, 1, 1, 1)
    data = iC.Data(c, couplings(**GENERIC), dav.Diagonalization(2, 300, 1e-9, 0, np.eye(12)[:, :2] + .1), switches(*TERMS))
    iC.save_data(iC.perform_initial_computations(data))
    r = iC.load_data("tJHam-421Full.json")
    x = iC.perform_initial_computations(r.data)
    assert np.allclose(x.eigenstates.eigvals, r.eigenstates.eigvals)
finally: shutil.rmtree(d)
''')

plant("C19-combined-variants", "C19", [(EMB, "    if neighbor_embedding:\n        file_name += \"-neigh\"\n", "    if neighbor_embedding and not (dynamic_embedding and neel_embedding):\n        file_name += \"-neigh\"\n")],
      "a dynamic embedding in a single neighbouring block, after an embedding in a ring",
      "the result has the name of the embedding in four blocks and replaces it", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(1, 1, 2, 1, 1)
    data = iC.Data(c, couplings(**GENERIC), dav.Diagonalization(1, 300, 1e-9, 0), switches(*TERMS))
    r = iC.perform_initial_computations(data)
    names = set()
    for n, k in enumerate(itertools.product((False, True), repeat=3)):
        emb.save_data_embedding_blocks(r, *k)
        assert len(os.listdir("initialComputations/Embedding_blocks")) == n + 1, k
finally: shutil.rmtree(d)
''')

plant("C11-skipped-exchange", "C11", [(HC, "    if bij==True:\n", "    if bij==True and interactions.J != 0:\n")],
      "no coupling of the spins far from the holes, but a coupling next to them",
      "the spin flips next to the holes are left out", '''
c = conf(3, 1, 1, 1, 1)
assert abs(ham(c, couplings(Jhpar=1.), "bij")).max() == .5
''')

plant("C26-sorted-in-place", "C26", [(BC, "    vect_hole = vect[0 : nholes]\n    vect_hole.sort()\n", "    vect[0 : nholes] = vect_hole = sorted(vect[0 : nholes])\n")],
      "a determinant whose holes are not in increasing order",
      "the caller's determinant is reordered", '''
c = conf(2, 2, 1, 2, 1)
det = [3, 0, 1, 2]
assert bC.get_index_in_basis(c, det) == bC.get_index_in_basis(c, [0, 3, 1, 2])
assert det == [3, 0, 1, 2], det
''')

plant("C25-all-states", "C25", [(IC, "        for col in trange(eigvects.shape[1]):\n            vect = eigvects[:,[col]]\n", "        for col in trange(min(nb_val, 10)):\n            vect = eigvects[:, col :][:, [0]] if col < eigvects.shape[1] else eigvects[:, [-1]]\n")],
      "more states requested than the sector has, or more than ten",
      "the number of spin labels differs from the number of states", '''
for n in (1, 5, 12, 30):
    c = conf(2, 2, 1, 1, 1)
    r = iC.perform_initial_computations(iC.Data(c, couplings(**GENERIC), dav.Diagonalization(n, 300, 1e-9, 0), switches(*TERMS)))
    assert len(r.eigenstates.spins) == r.eigenstates.eigvects.shape[1], n
''')

plant("C23-fourth-way", "C23", [(EMB, "                                        + lF.get_second_neighbors(site, bond_matrix_block_embedding, frontier_B)]\n", "                                        + lF.get_second_neighbors(site, bond_matrix_block_embedding, frontier_B)][:3]\n")],
      "a dynamic embedding of a block at least two sites wide and three high",
      "an electron of the neighbour does not enter a hole of the middle row from one of the diagonal sites", '''
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(2, 3, 1, 1, 0)
    data = iC.Data(c, couplings(t=.7, tnNNN=.4, tNNN=.3), dav.Diagonalization(1, 300, 1e-11, 0), switches(*TERMS))
    r = iC.perform_initial_computations(data)
    r.eigenstates = dav.Eigenstates([-20.], [], np.ones((6, 1)) / 6 ** .5)
    iC.save_data(r)
    x = emb.embedding_blocks(data, 1e9, 1, True, False, True, 0., False).hamiltonian.toarray()
    # the same after exchanging the lower and the upper row
    p = [bC.get_index_in_basis(c, [2 * (2 - s // 2) + s % 2 for s in det]) for det in r.determinants]
    assert abs(x[np.ix_(p, p)] - x).max() < 1e-9, abs(x[np.ix_(p, p)] - x).max()
finally: shutil.rmtree(d)
''')

plant("C03-second-corner", "C03", [(BC, "        if site_1 < nsites and site_2 < nsites and site_3 < nsites:\n", "        if site_1 < nsites and site_2 < nsites and site_3 < nsites and nbh >= nbv:\n")],
      "a ring around a block higher than wide, whose sites are tested within the block",
      "pairs of bonds within the block are judged as if a site were on the ring", '''
for nbh, nbv, side in itertools.product((1, 2, 3), (1, 2, 3), (1, 2)):
    m = lF.build_bond_matrix_neel_embedding(nbh, nbv, side)
    c = bC.Configuration(m, 0, 0, lattice_type="peripheral", nbh=nbh, nbv=nbv, nblocs_side=side)
    W, H = nbh * side, nbv * side
    for s in range(W * H):
        near = [x for x in lF.get_neighbors(s, m) if x < W * H]
        for a, b in itertools.permutations(near, 2):
            assert bool(bC.is_bond_linear(c, a, s, b)) == (a + b == 2 * s), (nbh, nbv, side, a, s, b)
''')

plant("C27-sign-of-charge", "C27", [(PP, "                row.append(z_alpha[ind_row][ind_col] - z_beta[ind_row][ind_col])\n", "                row.append(z_alpha[ind_row][ind_col] - min(z_beta[ind_row][ind_col], z_alpha[ind_row][ind_col] + .5))\n")],
      "a site where a spin down is much more likely than a spin up",
      "the map of the spin density is cut off on the negative side", '''
import matplotlib.axes, numpy
with contextlib.redirect_stdout(io.StringIO()):
    import postProcessing as pP
seen = []
draw = matplotlib.axes.Axes.pcolormesh
def spy(self, *a, **k):
    if numpy.asarray(a[2]).shape[1] > 1: seen.append(numpy.asarray(a[2]))
    return draw(self, *a, **k)
matplotlib.axes.Axes.pcolormesh = spy
d = scratch("tJ-HamCsr/tJ-H4/SpinDistribution/GroundState")
try:
    c = conf(2, 2, 1, 0, 2)
    b = bC.construct_basis(c)
    v = numpy.zeros((6, 1))
    v[2] = 1.
    r = iC.DataComputations(iC.Data(c, couplings(), dav.Diagonalization(1, 1, 1., 0), switches()), b.determinants, None, dav.Eigenstates([0.], [], v))
    pP.save_electron_probability_lattice(r, 0)
    assert len(seen) == 3
    assert abs(seen[2] - (seen[0] - seen[1])).max() < 1e-9
    assert seen[2].min() < -.99
finally: shutil.rmtree(d)
''')

plant("C27-last-excited", "C27", [(PP, "        for ind_state in trange(nb_excited):\n", "        for ind_state in trange(min(nb_excited, nb_conf - 1)):\n")],
      "plots of as many states as the sector has",
      "the highest state of the sector is not plotted", '''
with contextlib.redirect_stdout(io.StringIO()):
    import postProcessing as pP
seen = []
pP.save_electron_probability_lattice = lambda results, k: seen.append(k)
d = scratch("initialComputations/Embedding_blocks")
try:
    c = conf(2, 2, 1, 0, 1)
    data = iC.Data(c, couplings(t=.7, J=.2), dav.Diagonalization(4, 300, 1e-9, 0), switches(*TERMS))
    iC.save_data(iC.perform_initial_computations(data))
    for k in (1, 2, 3, 4):
        del seen[:]
        pP.generate_plots_configuration(data, pP.InputPlotting(k, 1, bool_electrons=True))
        assert seen == list(range(k)), (k, seen)
finally: shutil.rmtree(d)
''')

plant("C27-polarised-last", "C27", [(PP, "        data.configuration = configuration\n\n        generate_plots_configuration(data, input_plotting)\n", "        if nbeta > 0 or nholes > 0:\n            data.configuration = configuration\n\n        generate_plots_configuration(data, input_plotting)\n")],
      "a sweep of the plots of a lattice without holes",
      "the plots of the last sector are those of the sector before", '''
with contextlib.redirect_stdout(io.StringIO()):
    import postProcessing as pP
seen = []
pP.generate_plots_configuration = lambda data, plotting: seen.append(data.configuration.nbeta)
for h in (0, 1, 2):
    del seen[:]
    pP.generate_plots(iC.Data(conf(2, 2, 1, h, 1), couplings(), dav.Diagonalization(1, 3, 1., 0), switches()), pP.InputPlotting(1, 1))
    assert sorted(seen) == list(range(5 - h)), (h, seen)
''')
