from common import *
import random
ID = "C24"
RULE = ("Couplings and energies computed by the repository for single determinants: all or sampled determinants of small lattices against the "
        "assembled Hamiltonian, random determinants of lattices too large for a basis against reference rows; all selections of the "
        "off-diagonal terms, restricted and free sites. Non-trivial: at least one non-zero coupling.")
OFF = ("bt", "bij", "bSD", "btN")
REQUIRED = {"rows against the Hamiltonian": 2000, "rows against the reference": 1500, "couplings": 8000, "energies": 2500, "restricted rows": 200,
            "merged couplings": 30}


def cases(tier, rng):
    return matrix_cases(tier, rng, per=1, dmax=80) + image_cases(tier, rng, 45) + large_cases(tier, rng, ((1000, 3500), (4000, 9000)) if tier == "quick" else ((1000, 12000),) * 12)


def couplings(M, cfg, c, terms, det, extra):
    sw = switches(terms + extra)
    before = list(det)
    d = itr.compute_dynamic_interactions(cfg, interactions_of(c), sw, det)
    M.check(det == before, "the determinant passed to compute_dynamic_interactions was modified", before, det)
    return {k: v for k, v in d.items() if v != 0}


def compare(M, got, exp, what, det):
    tol = 1e-9
    exp = {k: v for k, v in exp.items() if abs(v) > tol}
    M.check(set(k for k, v in got.items() if abs(v) > tol) == set(exp), "wrong set of coupled determinants, " + what, det, got, exp)
    for k, v in exp.items():
        M.check(abs(got[k] - v) < 1e-8 * (1 + abs(v)), "wrong coupling, " + what, det, "with determinant %s" % (k,), got[k], v)
    M.ev("couplings", len(exp))


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    if "large" in case:
        terms = tuple(t for t in OFF if rng.random() < .5) or (rng.choice(OFF),)
        cfg, basis, H, c = large_matrix(case, M, rng, terms, rows=40)
        for k in rng.sample(range(H.shape[0]), 60):
            d = couplings(M, cfg, c, terms, list(basis.determinants[k]), ())
            row = H.getrow(k)
            exp = {j: v for j, v in zip(row.indices, row.data) if j != k}
            compare(M, {bC.get_index_in_basis(cfg, list(x)): v for x, v in d.items()}, exp, "%s on %s W=%d H=%d" % (terms, L.kind, L.W, L.H), basis.determinants[k])
            M.ev("rows against the Hamiltonian")
        return
    if "images" in case:
        for _ in range(case["images"]):
            h, b = random_filling(rng, L.n)
            if rng.random() < .5:
                h = rng.randint(1, max(1, L.n // 2)); b = (L.n - h) // 2
            st = m.random_state(rng, L.n, h, b)
            det = m.to_det(st)
            R = None
            if rng.random() < .3:
                R = sorted(rng.sample(range(L.n), rng.randint(1, L.n)))
                M.ev("restricted rows")
            cfg = L.config(bC, lF, h, b, restriction=R)
            c = m.random_couplings(rng)
            terms = tuple(t for t in OFF if rng.random() < .6)
            extra = tuple(t for t in ("bz", "bV") if rng.random() < .5)
            where = "%s on %s W=%d H=%d restricted to %s" % (terms, L.kind, L.W, L.H, R)
            d = couplings(M, cfg, c, terms, list(det), extra)
            got = {}
            for k, v in d.items():
                s = m.to_state(list(k), h, b)
                M.check(s is not None and s not in got, "a coupled determinant is malformed or listed twice, " + where, det, k)
                got[s] = v
            exp = m.row(L, st, c, terms, R)
            exp.pop(st, None)
            compare(M, got, exp, where, det)
            M.ev("rows against the reference")
            e = itr.compute_energy(cfg, interactions_of(c), list(det))
            x = m.static_energy(L, st, c, R) + m.repulsion(L, st, c, R)
            M.check(abs(e - x) < 1e-8 * (1 + abs(x)), "energy of a determinant, " + where, det, e, x)
            M.ev("energies")
            M.input((case["kind"], case["shape"], st, terms) if exp else None, dict(lattice=where, det=det, terms=terms))
        return
    h, b = case["h"], case["b"]
    R = sorted(rng.sample(range(L.n), rng.randint(2, L.n))) if rng.random() < .25 else None
    cfg = L.config(bC, lF, h, b, restriction=R)
    basis = bC.construct_basis(cfg)
    dets = basis.determinants
    pos = {tuple(d): k for k, d in enumerate(dets)}
    c = m.random_couplings(rng, hard=False)
    if rng.random() < .3: c["hSDper"] = c["hSDpar"] = c["J"] = c["t"]
    terms = tuple(t for t in OFF if rng.random() < .6) or (rng.choice(OFF),)
    A = full_matrix(M, cfg, basis, c, terms)
    D = np.diag(full_matrix(M, cfg, basis, c, ("bz", "bV")))
    where = "%s on %s W=%d H=%d, %d holes, %d down, restricted to %s" % (terms, L.kind, L.W, L.H, h, b, R)
    for k in (range(len(dets)) if len(dets) <= 25 else rng.sample(range(len(dets)), 25)):
        d = couplings(M, cfg, c, terms, list(dets[k]), ())
        M.check(all(tuple(x) in pos for x in d), "a coupled determinant is not in the basis, " + where, dets[k], list(d))
        got = {pos[tuple(x)]: v for x, v in d.items()}
        exp = {j: A[k, j] for j in np.nonzero(A[k])[0] if j != k}
        compare(M, got, exp, where, dets[k])
        M.ev("rows against the Hamiltonian")
        if len(m.flip_images(L, m.to_state(dets[k], h, b))['par']) and len(terms) > 1: M.ev("merged couplings")
        e = itr.compute_energy(cfg, interactions_of(c), list(dets[k]))
        M.check(abs(e - D[k]) < 1e-8 * (1 + abs(e)), "energy of a determinant against the diagonal of the Hamiltonian, " + where, dets[k], e, D[k])
        M.ev("energies")
        M.input((case["kind"], case["shape"], tuple(dets[k]), terms) if exp else None, dict(lattice=where, det=dets[k], terms=terms))
