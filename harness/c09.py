from common import *
import random
ID = "C09"
TERM_SETS = (("bSD",), ("bV",), ("bSD", "bV"))
RULE = ("Complete Hamiltonians with only displacement and repulsion selected and single determinants of larger lattices (image pairs, "
        "repulsion value), three numbering schemes, sampled rows of bases of up to 80000 determinants, random couplings. Oracle: reference operator on coordinates. Non-trivial: holes "
        "with antiparallel electrons, or at least two holes.")
REQUIRED = {"matrices": 300, "aligned displacements": 900, "perpendicular displacements": 1000, "repelling determinants": 200, "ring or cluster matrices": 80, "rows of large Hamiltonians": 300}


def cases(tier, rng):
    large = large_cases(tier, rng, ((700, 3000), (3000, 9000), (66000, 82000)) if tier == "quick" else ((700, 9000),) * 12 + ((33000, 140000),) * 6)
    return large + matrix_cases(tier, rng, per=2) + image_cases(tier, rng, 24)


def run(case, M):
    rng = random.Random(case["seed"])
    if "large" in case: return large_matrix(case, M, rng, rng.choice((("bSD",), ("bV",)) if case["large"] > 1 else TERM_SETS))
    L = lattice(case["kind"], case["shape"])
    if "images" in case:
        for _ in range(case["images"]):
            h, b = random_filling(rng, L.n)
            if rng.random() < .6:
                h = rng.randint(1, max(1, L.n // 2))
                b = (L.n - h) // 2
            st = m.random_state(rng, L.n, h, b)
            det = m.to_det(st)
            cfg = L.config(bC, lF, h, b)
            c = m.random_couplings(rng, hard=False)
            inter = interactions_of(c)
            got, exp = itr.compute_hole_repulsion(cfg, inter, list(det)), m.repulsion(L, st, c)
            M.check(abs(got - exp) < 1e-8 * (1 + abs(exp)), "hole repulsion on %s W=%d H=%d" % (L.kind, L.W, L.H), det, c, got, exp)
            if exp: M.ev("repelling determinants")
            got = itr.compute_singlet_displacement(cfg, inter, list(det))
            for name, g, e in zip(("aligned", "perpendicular"), got, m.displacement_images(L, st)):
                pairs = [tuple(image_states(M, p, h, b, "singlet displacement", det)) for p in g]
                same_images(M, pairs, e, "singlet displacement (%s)" % name, L, det)
                M.ev(name + " displacements", len(e))
            M.input((case["kind"], case["shape"], st) if h > 1 or (h and 0 < b < L.n - h) else None, dict(kind=L.kind, W=L.W, H=L.H, det=det))
        return
    h, b = case["h"], case["b"]
    cfg = L.config(bC, lF, h, b)
    basis = bC.construct_basis(cfg)
    sts = det_states(basis.determinants, h, b)
    c = m.random_couplings(rng)
    for terms in TERM_SETS:
        A, st = reindex(full_matrix(M, cfg, basis, c, terms), sts, h, b)
        check_matrix(M, A, m.matrix(L, h, b, c, terms), "Hamiltonian %s on %s W=%d H=%d, %d holes, %d down" % (terms, L.kind, L.W, L.H, h, b), st)
        M.ev("matrices")
        if L.kind != 'periodic': M.ev("ring or cluster matrices")
        M.input((case["kind"], case["shape"], h, b, terms) if h > 1 or (h and 0 < b < L.n - h) else None,
                dict(kind=L.kind, W=L.W, H=L.H, holes=h, down=b, terms=terms))
