from common import *
import random
ID = "C08"
TERM_SETS = (("bz",), ("bij",), ("bz", "bij"))
RULE = ("Complete Hamiltonians with only exchange terms selected and single determinants of larger lattices (diagonal value, flipped "
        "determinants per kind of coupling), three numbering schemes, sampled rows of bases of up to 80000 determinants, random distinct couplings. Oracle: reference operator on "
        "coordinates. Non-trivial: at least one pair of antiparallel electrons present in the filling.")
REQUIRED = {"matrices": 300, "undoped flips": 400, "parallel-hole flips": 900, "perpendicular-hole flips": 800, "ring or cluster matrices": 80, "rows of large Hamiltonians": 300}


def cases(tier, rng):
    large = large_cases(tier, rng, ((700, 3000), (3000, 9000), (66000, 82000)) if tier == "quick" else ((700, 9000),) * 12 + ((33000, 140000),) * 6)
    return large + matrix_cases(tier, rng, per=2) + image_cases(tier, rng, 24)


def run(case, M):
    rng = random.Random(case["seed"])
    if "large" in case: return large_matrix(case, M, rng, rng.choice((("bz",), ("bij",)) if case["large"] > 1 else TERM_SETS))
    L = lattice(case["kind"], case["shape"])
    if "images" in case:
        for _ in range(case["images"]):
            h, b = random_filling(rng, L.n)
            if rng.random() < .6: h, b = rng.randint(0, max(0, L.n // 3)), None
            if b is None: b = (L.n - h) // 2
            st = m.random_state(rng, L.n, h, b)
            det = m.to_det(st)
            cfg = L.config(bC, lF, h, b)
            c = m.random_couplings(rng, hard=False)
            inter = interactions_of(c)
            got, exp = itr.compute_static_spin_interaction(cfg, inter, list(det)), m.static_energy(L, st, c)
            M.check(abs(got - exp) < 1e-8 * (1 + abs(exp)), "static exchange energy on %s W=%d H=%d" % (L.kind, L.W, L.H), det, c, got, exp)
            f = itr.compute_spin_flip(cfg, inter, list(det))
            e = m.flip_images(L, st)
            for k, name, im in (('par', "parallel-hole", f[0]), ('per', "perpendicular-hole", f[1]), ('und', "undoped", f[2])):
                same_images(M, image_states(M, im, h, b, "spin flip", det), e[k], "spin flip, %s coupling" % name, L, det)
                M.ev(name + " flips", len(e[k]))
            M.input((case["kind"], case["shape"], st) if 0 < b < L.n - h else None, dict(kind=L.kind, W=L.W, H=L.H, det=det))
        return
    h, b = case["h"], case["b"]
    cfg = L.config(bC, lF, h, b)
    basis = bC.construct_basis(cfg)
    sts = det_states(basis.determinants, h, b)
    c = m.random_couplings(rng)
    for terms in TERM_SETS:
        A, st = reindex(full_matrix(M, cfg, basis, c, terms), sts, h, b)
        check_matrix(M, A, m.matrix(L, h, b, c, terms), "Hamiltonian %s on %s W=%d H=%d, %d holes, %d down" % (terms, L.kind, L.W, L.H, h, b), st)
        M.ev("matrices")
        if L.kind != 'periodic': M.ev("ring or cluster matrices")
        M.input((case["kind"], case["shape"], h, b, terms) if 0 < b < L.n - h else None, dict(kind=L.kind, W=L.W, H=L.H, holes=h, down=b, terms=terms))
