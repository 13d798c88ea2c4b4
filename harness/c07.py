from common import *
import random
ID = "C07"
TERM_SETS = (("bt",), ("btN",), ("bt", "btN"))
RULE = ("Complete Hamiltonians with only hopping terms selected (all fillings of small lattices, extreme fillings of larger ones, three "
        "numbering schemes, sampled rows of bases of up to 80000 determinants, random couplings) compared element by element with a reference operator; single determinants of lattices "
        "up to 44 sites whose images are compared as multisets. Non-trivial: at least one hole and one electron.")
REQUIRED = {"matrices": 300, "matrix elements": 20000, "images": 4000, "straight hops": 1500, "orthogonal hops": 1500, "ring or cluster matrices": 80, "rows of large Hamiltonians": 300}


def cases(tier, rng):
    large = large_cases(tier, rng, ((700, 3000), (3000, 9000), (66000, 82000)) if tier == "quick" else ((700, 9000),) * 12 + ((33000, 140000),) * 6)
    return large + matrix_cases(tier, rng, per=2) + image_cases(tier, rng, 14)


def run(case, M):
    rng = random.Random(case["seed"])
    if "large" in case: return large_matrix(case, M, rng, ("bt",) if case["large"] > 1 else rng.choice(TERM_SETS))
    L = lattice(case["kind"], case["shape"])
    if "images" in case:
        for _ in range(case["images"]):
            h, b = random_filling(rng, L.n)
            st = m.random_state(rng, L.n, h, b)
            det = m.to_det(st)
            cfg = L.config(bC, lF, h, b)
            inter = interactions_of(m.random_couplings(rng))
            same_images(M, image_states(M, bC_images(cfg, inter, det), h, b, "hopping", det), m.hop_images(L, st), "hopping", L, det)
            col, ort = itr.compute_next_hopping_integral(cfg, inter, list(det))
            es, eo = m.next_hop_images(L, st)
            same_images(M, image_states(M, col, h, b, "next hopping", det), es, "straight next-neighbour hopping", L, det)
            same_images(M, image_states(M, ort, h, b, "next hopping", det), eo, "orthogonal next-neighbour hopping", L, det)
            M.ev("images", len(es) + len(eo)); M.ev("straight hops", len(es)); M.ev("orthogonal hops", len(eo))
            M.input((case["kind"], case["shape"], st) if 0 < h < L.n else None, dict(kind=L.kind, W=L.W, H=L.H, det=det))
        return
    h, b = case["h"], case["b"]
    cfg = L.config(bC, lF, h, b)
    basis = bC.construct_basis(cfg)
    sts = det_states(basis.determinants, h, b)
    c = m.random_couplings(rng)
    for terms in TERM_SETS:
        A, st = reindex(full_matrix(M, cfg, basis, c, terms), sts, h, b)
        check_matrix(M, A, m.matrix(L, h, b, c, terms), "Hamiltonian %s on %s W=%d H=%d, %d holes, %d down" % (terms, L.kind, L.W, L.H, h, b), st)
        M.ev("matrices"); M.ev("matrix elements", int((A != 0).sum()))
        if L.kind != 'periodic': M.ev("ring or cluster matrices")
        M.input((case["kind"], case["shape"], h, b, terms) if 0 < h < L.n else None, dict(kind=L.kind, W=L.W, H=L.H, holes=h, down=b, terms=terms))


def bC_images(cfg, inter, det):
    return itr.compute_hopping_integral(cfg, inter, list(det))
