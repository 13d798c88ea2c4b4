"""Technique and level note of each check (used by gen_manifest.py)."""
REF = "runtime monitoring: results of real calls checked online against an independent reference model, over "
TECHNIQUE = {
 "C01": REF + "all lattice shapes up to a size",
 "C02": REF + "generated lattices, sites and restrictions",
 "C03": REF + "all bonded triples of generated lattices; invalid triples must be rejected",
 "C04": REF + "complete bases and large-number ranks (round-trip monitor)",
 "C05": REF + "random determinants, reversals and joins (involution and conservation monitors)",
 "C06": REF + "all rotations of generated determinants (geometry and composition monitors)",
 "C07": REF + "assembled Hamiltonians and hop lists",
 "C08": REF + "assembled Hamiltonians, flip lists and static energies",
 "C09": REF + "assembled Hamiltonians, displacement pairs and repulsion energies",
 "C10": "runtime monitoring: symmetry invariants (Hermiticity, spin commutator, reversal and rotation intertwining) evaluated on assembled Hamiltonians with independently built symmetry operators",
 "C11": "runtime monitoring: metamorphic linearity oracle over all 64 selections and unit couplings of assembled Hamiltonians",
 "C12": REF + "assembled Hamiltonians with random and exhaustive site restrictions; confinement and caller-state monitors",
 "C13": "runtime monitoring: residual, orthonormality, ordering and variational-bound monitors on eigensolver runs, exact dense spectrum as oracle, randomised starts",
 "C14": REF + "spin operators on random vectors and exact spin eigenvectors",
 "C15": REF + "site probabilities of random and structured state vectors (conservation monitors)",
 "C16": "runtime monitoring: ranking oracle on generated vectors with ties, zeros and sign flips",
 "C17": "runtime monitoring: displays parsed back to the state and compared, over generated shapes and determinants",
 "C18": "runtime monitoring: bit-exact round-trip and overwrite monitors over random histories of saves and loads",
 "C19": "runtime monitoring: opened-file events of every stage checked against a name registry (exclusive-ownership monitor) over all pairs of computations",
 "C20": "runtime monitoring: event log of a sweep (files, configurations, spectra) checked offline for exactly-once and multiplet-ladder invariants",
 "C21": "runtime monitoring: iteration trace of the self-consistent embedding checked step by step against the reference mean field (seed-replayed prefixes)",
 "C22": "runtime monitoring: iteration trace of the block embedding checked against the reference mean field",
 "C23": "runtime monitoring: dynamic embedding runs checked against a second-order reference and against static, rescaled, reversed and rotated runs",
 "C24": "runtime monitoring: cross-check of two code paths plus reference rows for determinants of generated lattices",
 "C25": "runtime monitoring: end-to-end runs checked against the reference Hamiltonian, its exact spectrum and metamorphic equivalences",
 "C26": "runtime monitoring: deep snapshots of arguments and repeat-call comparison over random interleavings with adversarial scribbling on results",
 "C28": "runtime monitoring: fault injection (processes killed or interrupted at every line and file operation, size limits, concurrent writers) with every result file reloaded and compared bit for bit",
 "C27": "runtime monitoring: drawing calls intercepted and compared with the stored data",
}
NOTE = {p: "Bounded exploration: holds on the inputs generated for the seed and tier; counts of what was observed are in the evidence file." for p in TECHNIQUE}
