"""Genuine defects repaired in /repo: (properties, commit, what failed)."""
FIXED = [
 ("C14", "015efac", "S+S- looked up the index of an unordered image, giving a wrong vector or an index out of range"),
 ("C17/C16", "444d88c", "listing a basis or the dominant determinants passed the basis instead of the configuration to the display and failed"),
 ("C16", "1392e6b", "dominant determinants with equal amplitudes were listed repeatedly while others were left out"),
 ("C27/C18", "19014bc", "the bV_embedding switch was not stored, so plots failed and it was lost on saving"),
 ("C13", "528a588", "gramSchmidt worked on rows of V and returned vectors that are not orthonormal"),
 ("C14", "91f4f3b", "compute_spin_and_multiplicity passed a basis where a configuration is needed and failed"),
 ("C13", "f09310c", "a single unnormalised starting vector gave wrong eigenvalues"),
 ("C13", "d23b819", "several starting vectors for a single eigenpair were not orthonormalized, giving a vector of wrong norm"),
 ("C13", "fe9cab2", "the preconditioner divided by zero when a Ritz value equals a diagonal element, giving NaN"),
 ("C13", "e3004b8", "denominators of the preconditioner close to zero overflowed and the solver failed"),
 ("C18", "3e667bf", "loading lost the numbering scheme and the site restriction"),
 ("C20", "2b7a594", "a sweep replaced the numbering scheme by the default one"),
 ("C19", "5189a04", "embedding stages and plots looked for other file names than the ones written for a partial selection"),
 ("C15", "cc1b9b8", "probabilities laid out on the rectangle were divided twice by the norm"),
 ("C08", "354aaf7", "spin flips next to aligned holes used the perpendicular coupling on some lattices"),
 ("C24", "e3db1fd", "couplings of a determinant used J instead of J/2 for flips"),
 ("C03", "b264383", "triples of two-cluster lattices were misclassified"),
 ("C18", "d1fde68", "saving embedding results with a starting vector failed"),
 ("C03", "f3b1e9f", "triples around blocks one site wide or high were misclassified or rejected"),
 ("C12", "0fc4c6d", "build_hamiltonian ignored its site restriction"),
 ("C27", "e886b88", "plots of a single eigenstate failed"),
 ("C27", "718e1f9", "density maps were drawn upside down"),
 ("C13/C20", "3dc09ac", "more eigenpairs requested than the dimension made the solver fail"),
 ("C05", "14f5ff7", "spins of sites outside the restriction were lost on reversal"),
 ("C14", "eac40ca", "S+S- ignored sites outside the restriction"),
 ("C23", "baef566", "the dynamic embedding with reversed spins failed for unequal electron numbers and took the amplitudes of unreversed determinants"),
 ("C05", "15de161", "joining determinants lost sites outside the restriction"),
]
