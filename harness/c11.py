from common import *
import random
ID = "C11"
BELONGS = {"bt": ("t",), "bz": ("J", "Jhpar", "Jhper"), "bij": ("J", "Jhpar", "Jhper"), "bSD": ("hSDpar", "hSDper"),
           "btN": ("tNNN", "tnNNN"), "bV": ("VNN", "VNNNper")}
RULE = ("For each lattice and filling the repository's matrices of every single term with every single unit coupling are taken as the "
        "basis of a linear space; all 64 (thorough and small) or a random sample of selections with random couplings must be the "
        "corresponding combination, couplings of other terms and the non-physical switches changing nothing. Oracle: linearity "
        "(metamorphic). Non-trivial: the combined matrix is not zero.")
REQUIRED = {"unit matrices": 1000, "selections": 1500, "silent couplings": 300, "neutral switches": 100, "units of energy": 300, "empty selections": 100}


def cases(tier, rng):
    return matrix_cases(tier, rng, per=1, dmax=60, share=.8)


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    h, b = case["h"], case["b"]
    cfg = L.config(bC, lF, h, b)
    basis = bC.construct_basis(cfg)
    zero = {k: 0.0 for k in m.COUPLINGS}
    where = "%s W=%d H=%d, %d holes, %d down" % (L.kind, L.W, L.H, h, b)
    unit = {}
    for t in m.TERMS:
        for k in m.COUPLINGS:
            if k in BELONGS[t] or rng.random() < .15:
                A = full_matrix(M, cfg, basis, dict(zero, **{k: 1.0}), (t,))
                if k in BELONGS[t]:
                    unit[t, k] = A
                    M.ev("unit matrices")
                else:
                    M.check(not A.any(), "coupling %s acts in term %s on %s" % (k, t, where))
                    M.ev("silent couplings")
    A = full_matrix(M, cfg, basis, m.random_couplings(rng, hard=False), ())
    M.check(not A.any(), "nothing selected, but the Hamiltonian is not zero on " + where)
    M.ev("empty selections")
    sels = [tuple(t for k, t in enumerate(m.TERMS) if w >> k & 1) for w in range(1, 64)]
    if len(basis.determinants) > 20: sels = rng.sample(sels, 10)
    else: sels = rng.sample(sels, 24)
    if case["seed"] % 40 == 0: sels = [tuple(t for k, t in enumerate(m.TERMS) if w >> k & 1) for w in range(1, 64)]
    for terms in sels:
        c = m.random_couplings(rng)
        A = full_matrix(M, cfg, basis, c, terms)
        B = sum(c[k] * unit[t, k] for t in terms for k in BELONGS[t])
        check_matrix(M, A, B, "selection %s is not the sum of its terms with couplings %s on %s" % (terms, c, where),
                     [tuple(d) for d in basis.determinants])
        M.ev("selections")
        M.input((case["kind"], case["shape"], h, b, terms) if B.any() else None, dict(lattice=where, terms=terms, couplings=c))
        if rng.random() < .3:
            # in another unit of energy, exactly the same matrix
            f = 2.0 ** rng.choice([-60, -40, -30, -20, -10, 10, 20, 40])
            A2 = full_matrix(M, cfg, basis, {k: f * x for k, x in c.items()}, terms)
            M.check(np.abs(A2 / f - A).max() <= 1e-12 * (1 + np.abs(A).max()), "the Hamiltonian is not proportional to the couplings: selection %s, couplings %s times %g on %s" % (terms, c, f, where))
            M.ev("units of energy")
        if rng.random() < .2:
            H2 = hC.build_hamiltonian(cfg, interactions_of(c), basis,
                                      switches(terms, bV_embedding=rng.random() < .5, b_spin_multipicities=rng.random() < .5),
                                      verbose=rng.random() < .5)
            M.check(np.array_equal(dense(M, H2, len(basis.determinants)), A), "verbose output or a non-physical switch changes the Hamiltonian of " + where, terms)
            M.ev("neutral switches")
