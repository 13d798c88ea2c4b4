from common import *
import random
ID = "C21"
RULE = ("Ring embeddings of blocks from 1x1 to 3x3 for all sorts of fillings, couplings, stored Hamiltonians (real and arbitrary symmetric) and stored states. Each embedding "
        "is replayed with the same random seed and iteration limits 1, 2, ..., K, so that the ground state of every iteration is observed; the eigenpairs of iteration k are "
        "checked against the stored Hamiltonian plus the reference mean field of iteration k-1. Runs with tolerances chosen between the observed distances must stop at the "
        "first iteration below. Non-trivial: the mean field is not a multiple of the identity.")
REQUIRED = {"iterations checked": 350, "first iterations (Neel ring)": 120, "fed-back iterations": 240, "tolerance stops": 200, "iteration-limit stops": 350,
            "saved results compared": 500, "non-square blocks": 100, "blocks one site wide": 60, "with holes in the field": 200, "partial spectra": 15, "small fields": 20, "arbitrary stored Hamiltonians": 25}
ASSUMPTIONS = ["the self-consistent iteration is deterministic for a seed of numpy's generator"]


def cases(tier, rng):
    out = []
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 1, 2), (1, 3, 1), (3, 1, 1), (2, 3, 1), (3, 2, 1), (1, 4, 1), (4, 1, 1), (5, 1, 1), (1, 5, 1),
              (1, 6, 1), (2, 1, 2), (1, 2, 2), (2, 4, 1), (4, 2, 1), (3, 3, 1), (1, 1, 3)]
    for s in (rng.sample([(4, 4, 1), (2, 2, 2), (1, 1, 4), (3, 4, 1), (4, 3, 1), (1, 3, 2)], 3) if tier == 'quick' else [(2, 2, 2), (1, 1, 4), (1, 3, 2)]): shapes.append(s)
    if tier != "quick": shapes += [(7, 1, 1), (5, 2, 1), (2, 5, 1), (3, 4, 1), (4, 3, 1)]
    for s in shapes:
        n = m.lattice_sites('periodic', s)
        fs = extreme_fillings(n, 40 if tier == "quick" else 120)
        fs = [f for f in fs if dim(n, *f) > 1] or fs
        for h, b in rng.sample(fs, min(len(fs), 9 if tier == "quick" else 40)):
            for _ in range(1 if tier == "quick" else 6):
                out.append(dict(shape=s, h=h, b=b, K=rng.choice([3, 3, 4]) if tier == "quick" else 7, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n))
    return out


def neel_prob(L, n):
    ring = range(n, L.n)
    p = {0: {}, 1: {}, -1: {}}
    for s in ring:
        x, y = L.xy[s]
        down = (x + y) % 2 != 0
        p[0][s], p[1][s], p[-1][s] = 0.0, float(not down), float(down)
    return p


def run(case, M):
    rng = random.Random(case["seed"])
    B, L = lattice('periodic', case["shape"]), lattice('peripheral', case["shape"])
    h, b, n = case["h"], case["b"], B.n
    st = m.states(n, h, b)
    d = len(st)
    pairs = [(a, f) for a in range(n) for f in L.nb[a] if f >= n]
    diagonals = [(a, f) for a in range(n) for f in sorted(L.diagonal(a)) if f >= n]
    c = small_field(rng, M, mild_couplings(rng))
    terms = [t for t in m.TERMS if rng.random() < .75]
    if rng.random() < .3:
        X = np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)])
        A = (X + X.T) / 2
        M.ev("arbitrary stored Hamiltonians")
    else:
        A = m.matrix(B, h, b, c, terms)
    full = rng.random() < .7 or d < 12
    nb = d + rng.randint(0, 2) if full else 10
    tol = 1e-8
    v0 = np.linalg.eigh(A)[1][:, :min(3, d)] if rng.random() < .5 else np.array([[rng.gauss(0, 1)] for _ in range(d)])
    where = "W=%d H=%d, %d holes, %d down, terms %s, %d pairs" % (B.W, B.H, h, b, "+".join(terms), nb)
    seed = rng.randrange(2 ** 31)
    with Scratch() as S:
        cfg = B.config(bC, lF, h, b)
        stored = stored_computation(cfg, A, c, terms, v0, [1.0] * v0.shape[1], dav.Diagonalization(1, 300, tol, 0))
        _, (plain,) = S.written(iC.save_data, stored)
        plain_text = open("initialComputations/" + plain).read()

        def embed(sc_tol, k):
            data = iC.Data(B.config(bC, lF, h, b), itr.Interactions(**c), dav.Diagonalization(rng.randint(1, 3), 300, tol, 0), switches(terms))
            before = snap_config(data.configuration)
            np.random.seed(seed)
            kw = {} if nb == 10 and rng.random() < .5 else dict(nb_val=nb)
            r, out = S.written(emb.embedding_neel, data, sc_tol, k, **kw)
            M.check(len(out) == 1 and out[0] != plain and open("initialComputations/" + plain).read() == plain_text, "the ring embedding wrote %s (%s)" % (out, where))
            same_snap(M, snap_config(data.configuration), before, "the ring embedding changed the configuration of the caller")
            M.check(np.array_equal(np.asarray(r.hamiltonian.toarray()), A), "the ring embedding did not return the loaded Hamiltonian unchanged: " + where)
            M.check([list(x) for x in r.determinants] == stored.determinants, "the ring embedding changed the determinants: " + where)
            same_snap(M, snap(iC.load_data(out[0]), times=False), snap(r, times=False), "saved and returned results of the ring embedding differ")
            M.ev("saved results compared")
            return r

        prob, vs, rs = neel_prob(L, n), [v0[:, [0]]], []
        for k in range(1, case["K"] + 1):
            r = embed(0.0, k)
            M.ev("iteration-limit stops")
            field = mean_field(st, c, pairs, diagonals, prob)
            H = A + np.diag(field)
            e, v = np.array(r.eigenstates.eigvals, float), np.asarray(r.eigenstates.eigvects)
            M.check(len(e) == v.shape[1] == min(nb, d), "%d eigenvalues and %s vectors instead of %d pairs: %s" % (len(e), v.shape, min(nb, d), where))
            res = np.linalg.norm(H @ v - v * e, axis=0)
            exact = np.linalg.eigvalsh(H)
            if full:
                M.check((res < 1e-6).all(), "iteration %d of the ring embedding does not hold the eigenpairs of the block in the reference field: %s" % (k, where),
                        "couplings %s" % c, "residuals %s" % res.tolist(), "field %s" % field.tolist())
                M.check(abs(e[0] - exact[0]) < 1e-6, "iteration %d: not the ground state: %s" % (k, where), e[0], exact[0])
                M.ev("iterations checked")
            elif (res < 1e-6).all():
                M.ev("iterations checked")
                M.ev("partial spectra")
            else:
                M.ev("partial spectra not converged")
                M.check((e >= exact[:len(e)] - 1e-6).all(), "energies of iteration %d are below the spectrum of the block in the reference field: %s" % (k, where), e.tolist(), exact.tolist())
            M.ev("first iterations (Neel ring)" if k == 1 else "fed-back iterations")
            if B.W != B.H: M.ev("non-square blocks")
            if 1 in (B.W, B.H): M.ev("blocks one site wide")
            g = v[:, [0]]
            own = m.site_probabilities(st, g)
            prob = {x: {} for x in (0, 1, -1)}
            for a, f in pairs:
                prob[0][f], prob[1][f], prob[-1][f] = own[0][a], own[-1][a], own[1][a]
            if h: M.ev("with holes in the field")
            vs.append(g)
            rs.append(r)
            M.input((tuple(case["shape"]), h, b, tuple(terms), k, round(float(field.sum()), 9)) if np.ptp(field) > 1e-9 else None,
                    dict(block=where, iteration=k, lowest_energy=float(e[0]), field=[round(float(x), 6) for x in field[:6]]))
        dist = [float(np.linalg.norm(vs[k] - vs[k - 1]) / np.linalg.norm(vs[k - 1])) for k in range(1, len(vs))]
        for t in [rng.choice(dist) * rng.choice([1.5, 1.01, .9]), 10.0]:
            if any(abs(x - t) < 1e-9 + 1e-6 * t for x in dist): continue
            limit = rng.randint(1, case["K"])
            stop = next((k for k in range(1, limit + 1) if dist[k - 1] < t), limit)
            r = embed(t, limit)
            M.check(np.allclose(r.eigenstates.eigvals, rs[stop - 1].eigenstates.eigvals, atol=1e-9) and np.allclose(r.eigenstates.eigvects, rs[stop - 1].eigenstates.eigvects, atol=1e-7),
                    "with tolerance %g and at most %d iterations the embedding did not stop after iteration %d: %s" % (t, limit, stop, where), "distances %s" % dist,
                    r.eigenstates.eigvals, rs[stop - 1].eigenstates.eigvals)
            M.ev("tolerance stops")
