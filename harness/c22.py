from common import *
import random
ID = "C22"
RULE = ("Static block embeddings of blocks up to 3x3 (rectangular with a single neighbour, square with four) for all sorts of fillings, couplings, stored Hamiltonians and "
        "states, plain or ring-embedded files (holding different data), reversed or plain spins. With a loose tolerance the first dressing, made by the stored state, is "
        "compared exactly; with tight ones the dressing must be the one of a state within the tolerance of the returned one; quarter-turn invariance, residual, variational and "
        "saved-file monitors. Non-trivial: the dressing is not a multiple of the identity.")
REQUIRED = {"first dressings compared": 250, "self-consistent results compared": 120, "single neighbour": 200, "four neighbours": 150, "reversed spins": 150, "plain spins": 150,
            "from ring embedding": 100, "from plain results": 200, "saved results compared": 500, "rectangular blocks": 100, "rotation-invariant dressings": 150, "eigenpairs within the tolerance": 300,
            "with holes": 250, "later iterations compared": 60, "small fields": 25}
ASSUMPTIONS = ["embeddings which do not converge return nothing and are not judged"]


def cases(tier, rng):
    out = []
    quick = tier == "quick"
    for s in [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 1, 2), (1, 3, 1), (3, 1, 1), (2, 3, 1), (3, 2, 1), (4, 1, 1), (1, 4, 1), (2, 1, 2), (1, 2, 2), (3, 3, 1), (1, 1, 3), (2, 4, 1), rng.choice([(4, 4, 1), (1, 1, 4)]), (2, 2, 2)]:
        n = m.lattice_sites('periodic', s)
        fs = extreme_fillings(n, 40 if quick else 130)
        fs = [f for f in fs if dim(n, *f) > 1] or fs
        square = s[0] == s[1]
        for h, b in rng.sample(fs, min(len(fs), (2 if n > 15 else 12 if square else 7) if quick else 60)):
            for neigh in ([True, False] if square else [True]):
                for _ in range((2 if n < 16 else 1) if quick else 8):
                    out.append(dict(shape=s, h=h, b=b, neigh=neigh, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n))
    return out


def geometry(s):
    """Bonds and diagonal pairs from the block to its east neighbour, foreign sites numbered as in the neighbour."""
    B, L = lattice('periodic', s), lattice('clusters', s)
    n = B.n
    pairs = [(a, f - n) for a in range(n) for f in L.nb[a] if f >= n]
    diagonals = [(a, f - n) for a in range(n) for f in sorted(L.diagonal(a)) if f >= n]
    return B, L, pairs, diagonals


def rotate_state(B, k, s):
    v = [None] * B.n
    for a in range(B.n): v[m.rotate_xy(B, k, a)] = s[a]
    return tuple(v)


def dressing(B, st, c, pairs, diagonals, vect, reverse, neigh):
    prob = m.site_probabilities(st, vect)
    if reverse: prob = {0: prob[0], 1: prob[-1], -1: prob[1]}
    f = mean_field(st, c, pairs, diagonals, prob)
    if neigh: return f
    pos = {s: k for k, s in enumerate(st)}
    out = np.zeros(len(st))
    for k, s in enumerate(st):
        for r in range(4): out[pos[rotate_state(B, r, s)]] += f[k]
    return out


def symmetric(rng, d):
    X = np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)])
    return (X + X.T) / 2


def follow(M, S, B, L, st, c, pairs, diagonals, terms, stored, data, neel, reverse, neigh, info):
    """Iterations one by one: with a tolerance just below the distance reached so far, a run stops at the next iteration, whose field is that of the state before."""
    A, g, _ = stored
    far = 1e9
    for k in range(1, 9):
        r, out = S.written(emb.embedding_blocks, data, far * (1 - 1e-6), k, False, neel, neigh, reverse_spins=reverse)
        if r is None:
            M.check(k > 1, "the block embedding did not stop at an iteration within the tolerance: " + info)
            return
        H = dense(M, r.hamiltonian, len(st))
        check_matrix(M, H, A + np.diag(dressing(B, st, c, pairs, diagonals, g, reverse, neigh)), "Hamiltonian of iteration %d: %s, couplings %s" % (k, info, c), st)
        if k > 1: M.ev("later iterations compared")
        new = np.asarray(r.eigenstates.eigvects)[:, [0]]
        d = float(np.linalg.norm(new - g) / np.linalg.norm(g))
        M.check(k == 1 or d < far, "the block embedding stopped though the state is not within the tolerance of the previous one: " + info, d, far)
        g, far = new, d
        if far < 1e-6: return


def watch(M, S, B, L, st, c, pairs, diagonals, stored, data, neel, reverse, neigh, info):
    """All iterations of a run which does not stop, seen by the matrices it diagonalises."""
    A, g, _ = stored
    with Solves() as seen:
        S.written(emb.embedding_blocks, data, 0., 7, False, neel, neigh, reverse_spins=reverse)
    last = None
    for k, (H, e, v) in enumerate(seen):
        if H.shape != A.shape: continue
        if last is not None and np.array_equal(H, last): continue      # diagonalised again
        check_matrix(M, H, A + np.diag(dressing(B, st, c, pairs, diagonals, g, reverse, neigh)), "Hamiltonian diagonalised in iteration %d: %s, couplings %s" % (k + 1, info, c), st)
        if k > 1: M.ev("iterations seen by their diagonalisation")
        g, last = v[:, [0]], H


def run(case, M):
    rng = random.Random(case["seed"])
    B, L, pairs, diagonals = geometry(case["shape"])
    h, b, n, neigh = case["h"], case["b"], B.n, case["neigh"]
    st = m.states(n, h, b)
    d = len(st)
    c = small_field(rng, M, mild_couplings(rng))
    terms = [t for t in m.TERMS if rng.random() < .75]
    where = "W=%d H=%d, %d holes, %d down, terms %s, %s" % (B.W, B.H, h, b, "+".join(terms), "one neighbour" if neigh else "four neighbours")
    tol = 1e-9
    with Scratch() as S:
        stored = {}
        for neel in (False, True):
            A = m.matrix(B, h, b, c, terms) if rng.random() < .6 and not neel else symmetric(rng, d)
            nv = rng.randint(1, min(3, d))
            v = np.linalg.eigh(A)[1][:, :nv] if rng.random() < .5 else np.array([[rng.gauss(0, 1) for _ in range(nv)] for _ in range(d)])
            if rng.random() < .2: v *= 10.0 ** rng.randint(-2, 2)
            comp = stored_computation(B.config(bC, lF, h, b), A, c, terms, v, [rng.uniform(-2, 2) for _ in range(nv)], dav.Diagonalization(1, 300, tol, 0))
            S.written(emb.save_data_peripheral_embedding if neel else iC.save_data, comp)
            stored[neel] = (A, v[:, [0]], comp)
        kept = {f: open("initialComputations/" + f).read() for f in S.files()}

        if rng.random() < .5:
            neel, reverse = rng.random() < .35, rng.random() < .5
            data = iC.Data(B.config(bC, lF, h, b), itr.Interactions(**c), dav.Diagonalization(1, 300, tol, 0), switches(terms))
            follow(M, S, B, L, st, c, pairs, diagonals, terms, stored[neel], data, neel, reverse, neigh,
                   "%s, %s, spins %s" % (where, "after ring embedding" if neel else "from plain results", "reversed" if reverse else "kept"))
            kept = {f: open("initialComputations/" + f).read() for f in S.files()}
        if rng.random() < .4:
            neel, reverse = rng.random() < .35, rng.random() < .5
            data = iC.Data(B.config(bC, lF, h, b), itr.Interactions(**c), dav.Diagonalization(1, 300, tol, 0), switches(terms))
            watch(M, S, B, L, st, c, pairs, diagonals, stored[neel], data, neel, reverse, neigh,
                  "%s, %s, spins %s" % (where, "after ring embedding" if neel else "from plain results", "reversed" if reverse else "kept"))
            kept = {f: open("initialComputations/" + f).read() for f in S.files()}

        for sc in (1e9, rng.choice([1e-2, 1e-4, 1e-6])):
            neel = rng.random() < .35
            reverse = rng.random() < .5
            A, v0, comp = stored[neel]
            data = iC.Data(B.config(bC, lF, h, b), itr.Interactions(**c), dav.Diagonalization(rng.randint(1, 3), 300, tol, 0), switches(terms))
            before = snap_config(data.configuration)
            kw = {} if reverse and rng.random() < .5 else dict(reverse_spins=reverse)
            r, out = S.written(emb.embedding_blocks, data, sc, rng.randint(1, 3) if sc > 1 else 40, False, neel, neigh, **kw)
            info = "%s, %s, spins %s, tolerance %g" % (where, "after ring embedding" if neel else "from plain results", "reversed" if reverse else "kept", sc)
            same_snap(M, snap_config(data.configuration), before, "the block embedding changed the configuration of the caller")
            if r is None:
                M.check(sc < 1, "the block embedding did not stop at an iteration within the tolerance: " + info)
                M.ev("not converged")
                continue
            M.check(len(out) == 1, "the block embedding wrote %s: %s" % (out, info))
            kept.pop(out[0], None)
            for f in kept:
                M.check(open("initialComputations/" + f).read() == kept[f], "the block embedding changed the file %s: %s" % (f, info))
            H = dense(M, r.hamiltonian, d)
            e, v = r.eigenstates.eigvals, np.asarray(r.eigenstates.eigvects)
            M.check(len(e) >= 1 and v.shape == (d, len(e)), "shape of the returned eigenstates: " + info, len(e), v.shape)
            g = v[:, [0]]
            if sc > 1:
                D = dressing(B, st, c, pairs, diagonals, v0, reverse, neigh)
                check_matrix(M, H, A + np.diag(D), "Hamiltonian after the first dressing: %s, couplings %s" % (info, c), st)
                M.ev("first dressings compared")
            else:
                D = dressing(B, st, c, pairs, diagonals, g, reverse, neigh)
                slack = (1 if neigh else 4) * (2 * sc + sc * sc) * (len(pairs) * max(abs(c["J"]) / 2, abs(c["VNN"])) + len(diagonals) * abs(c["VNNNper"])) * 2 + 1e-8
                gap = np.abs(H - A - np.diag(D))
                M.check(gap.max() <= slack, "the dressing is not that of a state within the tolerance of the returned one: %s, couplings %s" % (info, c),
                        "largest difference %g, allowed %g" % (gap.max(), slack))
                M.ev("self-consistent results compared")
            if not neigh:
                F = np.diag(H - A)
                pos = {s: k for k, s in enumerate(st)}
                for k, s in enumerate(st):
                    q = pos[rotate_state(B, 1, s)]
                    M.check(abs(F[k] - F[q]) <= 1e-9 * (1 + abs(F[k])), "the dressing from four sides is not invariant under a quarter turn: " + info, s, F[k], F[q])
                M.ev("rotation-invariant dressings")
            res = float(np.linalg.norm(H @ g - e[0] * g))
            M.check(abs(float((g.T @ H @ g).item()) - e[0] * float((g.T @ g).item())) < 1e-7 * (1 + abs(e[0])) and abs(np.linalg.norm(g) - 1) < 1e-7, "the returned energy is not that of the returned vector: " + info, e[0], res)
            start = float((v0.T @ H @ v0).item() / (v0.T @ v0).item())
            M.check(e[0] <= start + 1e-8 * (1 + abs(start)), "the returned energy is above that of the stored state: " + info, e[0], start)
            if res < 1e-7:
                M.ev("eigenpairs within the tolerance")
                if e[0] <= np.linalg.eigvalsh(H)[0] + 1e-7: M.ev("lowest states reached")
            else: M.ev("eigenpairs stopped by the step limit")
            same_snap(M, snap(iC.load_data(out[0]), times=False), snap(r, times=False), "saved and returned results of the block embedding differ: " + info)
            M.ev("saved results compared")
            M.check([list(x) for x in r.determinants] == comp.determinants, "the block embedding changed the determinants: " + info)
            for name in ("single neighbour" if neigh else "four neighbours", "reversed spins" if reverse else "plain spins", "from ring embedding" if neel else "from plain results"): M.ev(name)
            if B.W != B.H: M.ev("rectangular blocks")
            if h: M.ev("with holes")
            M.input((tuple(case["shape"]), h, b, neigh, tuple(terms), neel, reverse, sc, round(float(D.sum()), 9)) if np.ptp(D) > 1e-9 else None,
                    dict(block=info, energy=float(e[0]), dressing=[round(float(x), 6) for x in D[:6]]))
