from common import *
from c22 import geometry, rotate_state, dressing, symmetric
import random
ID = "C23"
RULE = ("Dynamic embeddings of blocks up to 2x2 (all fillings) and of wider blocks (extreme fillings), one neighbour or four, spins reversed or kept, generated states, couplings and thresholds: "
        "each run is compared with a reference of the second-order dressing and with the static run of the same data, with a run above the largest coupling, without boundary couplings, with the opposite sign of the stored "
        "state, with the opposite-spin sector, and with all energies rescaled. Non-trivial: the dynamic dressing is not zero.")
REQUIRED = {"dynamic runs": 180, "non-zero dynamic dressings": 35, "equal to static: large threshold": 30, "equal to static: no coupling": 30, "sign flips": 30, "opposite-spin sectors": 25,
            "rescaled energies": 25, "rotation-invariant dressings": 10, "saved results compared": 180, "reversed spins": 40, "plain spins": 40, "unbalanced spins": 50, "far sites untouched": 4,
            "intermediate thresholds": 15, "opposite energies with a threshold": 15, "negligible thresholds": 15, "second order": 8, "default thresholds": 12, "dressings compared": 80, "thresholds compared": 10, "second iterations compared": 15, "calls relying on defaults": 60}
ASSUMPTIONS = ["the stored energy stays away from the energies of the determinants (perturbation theory divides by the difference)",
               "second iterations are judged where twice the energy of the first stays .1 away from the intermediate energies"]
DYN = ("t", "J", "Jhpar", "Jhper", "hSDpar", "hSDper", "tNNN", "tnNNN")


DEFAULTS = random.Random(1)


def cases(tier, rng):
    out = []
    quick = tier == "quick"
    for s in [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 3, 1), (3, 1, 1), (4, 1, 1), (1, 4, 1), (2, 3, 1), (3, 3, 1), (1, 1, 2), (1, 1, 3)] + ([] if quick else [(3, 2, 1), (5, 1, 1), (2, 1, 2), (1, 2, 2)]):
        n = m.lattice_sites('periodic', s)
        fs = fillings(n)
        if n > 3: fs = [f for f in fs if dim(n, *f) <= (12 if quick else 30)]
        if n > 4: fs = [f for f in fs if dim(n, *f) <= (12 if s[1] > 1 else 20)]
        square = s[0] == s[1]
        if quick and 3 < n < 5: fs = [f for f in fs if 0 < f[0] < n and rng.random() < .7] + [f for f in fs if not 0 < f[0] < n and rng.random() < .2]
        for h, b in fs:
            for neigh in ([True, False] if square else [True]):
                cost = dim(n, h, b) ** 2 * h * (n - h) + 1
                if s[1] > 1 and not neigh: cost *= 4
                for k in range(2 if quick else 4):
                    if n > 4 and quick and (k > 0 or s == (1, 1, 3) and rng.random() < .5 if neigh else rng.random() < .85): continue
                    if s == (1, 1, 2) and quick and rng.random() < .6: continue
                    out.append(dict(shape=s, h=h, b=b, neigh=neigh, seed=rng.randrange(10 ** 9), share=.15 if quick and cost > 4000 else .35 if quick and cost > 2000 else 1, _w=cost))
    return out


class Second:
    """Reference of the dynamic dressing: intermediate states in which an electron of the neighbour has entered a hole of a determinant of the block, one or two bonds away."""

    def __init__(self, B, L, st, c, v, e, reverse, neigh):
        self.B, self.st, self.neigh, n = B, st, neigh, B.n
        self.pos = pos = {s: k for k, s in enumerate(st)}
        edge = {a for a in range(n) if any(f >= n for f in L.nb[a])}
        near = edge | {x for a in edge for x in B.nb[a]}
        far = {f - n for a in edge for f in L.nb[a] if f >= n}
        far = {n + f for f in far | {x for f in far for x in B.nb[f]}}
        amp = {(tuple(-x for x in s) if reverse else s): v[k, 0] for k, s in enumerate(st)}
        reached = {}    # intermediate state -> in how many determinants of the block the electron may have entered
        for A in st:
            for P in {m.moved(A + N, [(a, N[f - n]), (f, 0)]) for a in near if A[a] == 0 for f in (set(L.nb[a]) | L.second(a)) & far for N in amp if N[f - n]}:
                reached[P] = reached.get(P, 0) + 1
        self.terms = []     # (pair of determinants of the block, coupling, number of times)
        self.closest = np.inf
        for P, times in reached.items():
            s = sum(P[:n]) - sum(st[0])
            gap = 2 * e - m.static_energy(L, P, c) - m.repulsion(L, P, c)
            out = {}
            for f in far:
                for a in near:
                    if P[f] == 0 and P[a] == s:
                        x = c["t"] if a in L.nb[f] else c["tNNN"] if a in L.diagonal(f) else c["tnNNN"] if a in L.second(f) else None
                        if x is not None:
                            Q = m.moved(P, [(a, 0), (f, s)])
                            out[Q] = out.get(Q, 0) + x
            out = [(pos[Q[:n]], x * amp[Q[n:]]) for Q, x in out.items()]
            if len(out) > 1: self.closest = min(self.closest, abs(gap))
            self.terms += [(i, j, x * y / gap, times) for k, (i, x) in enumerate(out) for j, y in out[k + 1:]]

    def dressing(self, threshold):
        D = np.zeros((len(self.st), len(self.st)))
        for i, j, x, times in self.terms:
            if abs(x) < threshold: continue
            for r in range(1 if self.neigh else 4):
                p, q = (self.pos[rotate_state(self.B, r, self.st[k])] for k in (i, j))
                D[p, q] += times * x
                D[q, p] += times * x
        return D

    def clear(self, threshold):
        """No term is so close to the threshold that rounding decides."""
        return all(abs(abs(x) - threshold) > 1e-9 * threshold for _, _, x, _ in self.terms)


def embed(M, B, h, b, c, A, v, e, terms, neigh, reverse, dynamic=True, threshold=1e-9, info="", sc=1e12, iterations=1, states=False):
    """Hamiltonian embedded once in the field of the stored state, checked against the file."""
    d = len(A)
    with Scratch() as S:
        comp = stored_computation(B.config(bC, lF, h, b), A, c, terms, v, [e], dav.Diagonalization(1, 300, 1e-9, 0))
        iC.save_data(comp)
        data = iC.Data(B.config(bC, lF, h, b), itr.Interactions(**c), dav.Diagonalization(1, 300, 1e-9, 0), switches(terms))
        before = snap_config(data.configuration)
        if DEFAULTS.random() < .4:
            # leaves out what has its default value (no threshold: the default one)
            k = dict(dynamic_embedding=dynamic, neel_embedding=False, neighbor_embedding=neigh, reverse_spins=reverse, threshold_mel=threshold)
            usual = dict(dynamic_embedding=False, neel_embedding=False, neighbor_embedding=False, reverse_spins=True, threshold_mel=None)
            k = {a: x for a, x in k.items() if x != usual[a]}
            M.ev("calls relying on defaults")
            r, out = S.written(lambda: emb.embedding_blocks(data, sc, iterations, **k))
        else:
            r, out = S.written(emb.embedding_blocks, data, sc, iterations, dynamic, False, neigh, *([threshold, reverse] if threshold is not None else []), **({} if threshold is not None else dict(reverse_spins=reverse)))
        if r is None and iterations > 1: return None
        M.check(r is not None and len(out) == 1, "the embedding of one iteration returned %s and wrote %s: %s" % (r, out, info))
        same_snap(M, snap_config(data.configuration), before, "the embedding changed the configuration of the caller: " + info)
        H = dense(M, r.hamiltonian, d)
        if dynamic:
            same_snap(M, snap(iC.load_data(out[0]), times=False), snap(r, times=False), "saved and returned results of the dynamic embedding differ: " + info)
            M.ev("saved results compared")
            M.ev("dynamic runs")
        g = np.asarray(r.eigenstates.eigvects)[:, [0]]
        x = float((g.T @ H @ g).item() / (g.T @ g).item())
        M.check(abs(x - r.eigenstates.eigvals[0]) < 1e-6 * (1 + np.abs(H).max()), "the returned energy is not that of the returned state: " + info, x, r.eigenstates.eigvals[0])
    return H if sc > 1e9 and iterations == 1 and not states else (H, g, float(r.eigenstates.eigvals[0]))


def run(case, M):
    rng = random.Random(case["seed"])
    DEFAULTS.seed(case["seed"])
    B, L, pairs, diagonals = geometry(case["shape"])
    h, b, n, neigh = case["h"], case["b"], B.n, case["neigh"]
    st = m.states(n, h, b)
    d = len(st)
    reverse = rng.random() < .5
    c = mild_couplings(rng, digits=3, zero=0)
    if rng.random() < .3: c[rng.choice(DYN)] = 0.0
    terms = [t for t in m.TERMS if rng.random() < .8]
    A = m.matrix(B, h, b, c, m.TERMS) if rng.random() < .6 else symmetric(rng, d)
    v = np.array([[rng.gauss(0, 1)] for _ in range(d)])
    if rng.random() < .3:
        v = np.linalg.eigh(A)[1][:, [0]]
    v /= np.linalg.norm(v)
    e = -round(rng.uniform(15, 40), 4)
    info = "W=%d H=%d, %d holes, %d down, %s, spins %s" % (B.W, B.H, h, b, "one neighbour" if neigh else "four neighbours", "reversed" if reverse else "kept")
    run1 = lambda **k: embed(M, **{**dict(B=B, h=h, b=b, c=c, A=A, v=v, e=e, terms=terms, neigh=neigh, reverse=reverse, info=info), **k})
    H0 = run1(dynamic=False)
    D0 = dressing(B, st, c, pairs, diagonals, v, reverse, neigh)
    check_matrix(M, H0, A + np.diag(D0), "static embedding, " + info, st)
    H = run1()
    X = H - H0
    big = float(np.abs(X).max())
    second = Second(B, L, st, c, v, e, reverse, neigh)
    often = (lambda p: rng.random() < p * case.get("share", 1))
    scale = 1e-9 * (1 + np.abs(H).max())
    detail = "couplings %s, stored energy %s" % (c, e)
    M.check(np.abs(H - H.T).max() <= scale, "the dynamically embedded Hamiltonian is not symmetric: " + info, detail, np.abs(H - H.T).max())
    if second.clear(1e-9):
        check_matrix(M, X, second.dressing(1e-9), "dynamic dressing, %s, %s" % (info, detail), st)
        M.ev("dressings compared")
    M.ev("reversed spins" if reverse else "plain spins")
    if n - h != 2 * b: M.ev("unbalanced spins")
    if big > 1e-7: M.ev("non-zero dynamic dressings")
    pos = {s: k for k, s in enumerate(st)}
    close = lambda P, Q: np.abs(P - Q).max() <= scale
    if not neigh:
        p = [pos[rotate_state(B, 1, s)] for s in st]
        M.check(close(X[np.ix_(p, p)], X), "the dynamic dressing from four sides is not invariant under a quarter turn: " + info, detail)
        M.ev("rotation-invariant dressings")
    else:
        edge = {a for a, f in pairs}
        near = edge | {x for a in edge for x in B.nb[a]}
        for i in range(d):
            for j in np.nonzero(np.abs(X[i]) > scale)[0]:
                M.check(all(st[i][s] == st[j][s] for s in range(n) if s not in near), "the dynamic dressing changes a site far from the boundary: " + info, st[i], st[j], X[i, j])
        if big > 1e-7 and len(near) < n: M.ev("far sites untouched")
    if big < 1e-7 or often(.6):
        M.check(close(run1(threshold=1e6), H0), "the dynamic embedding differs from the static one though every coupling is below the threshold: " + info, detail)
        M.ev("equal to static: large threshold")
    if often(.5):
        c2 = {k: (0.0 if k in DYN else x) for k, x in c.items()}
        M.check(close(run1(c=c2), run1(c=c2, dynamic=False)), "the dynamic embedding differs from the static one though nothing couples the blocks: " + info, c2)
        M.ev("equal to static: no coupling")
    if often(.6):
        # the next iteration starts from the state and the energy of the first
        _, g, e1 = run1(states=True)
        far = float(np.linalg.norm(g - v) / np.linalg.norm(v))
        two = run1(sc=far * (1 - 1e-6), iterations=2) if far > 1e-6 else None
        if two:
            again = Second(B, L, st, c, g, e1, reverse, neigh)
            if again.clear(1e-9) and again.closest > .1:
                check_matrix(M, two[0], A + np.diag(dressing(B, st, c, pairs, diagonals, g, reverse, neigh)) + again.dressing(1e-9), "Hamiltonian of the second iteration, %s, %s" % (info, detail), st)
                M.ev("second iterations compared")
    if often(.35):
        with Solves() as seen:
            run1(sc=0., iterations=4)
        x, y, last = v, e, None
        for k, (W, vals, vects) in enumerate(seen):
            if W.shape != A.shape or last is not None and np.array_equal(W, last): continue
            again = Second(B, L, st, c, x, y, reverse, neigh)
            if again.closest <= .1: break
            if again.clear(1e-9):
                check_matrix(M, W, A + np.diag(dressing(B, st, c, pairs, diagonals, x, reverse, neigh)) + again.dressing(1e-9), "Hamiltonian diagonalised in iteration %d, %s, %s" % (k + 1, info, detail), st)
                if k > 1: M.ev("iterations seen by their diagonalisation")
            x, y, last = vects[:, [0]], float(vals[0]), W
    if big < 1e-7 and often(.7): return M.input(None)
    if often(.4):
        M.check(close(run1(threshold=rng.choice([0, -1.0])), H), "a negligible threshold leaves out couplings: " + info, detail)
        M.ev("negligible thresholds")
    if often(.6):
        M.check(close(run1(v=-v), H), "the embedded Hamiltonian depends on the sign of the stored state: " + info, detail)
        M.ev("sign flips")
    if often(.5):
        f = 2.0 ** rng.choice([-1, 1, 2]) * rng.choice([1, -1])
        G = run1(c={k: f * x for k, x in c.items()}, A=f * A, e=f * e, threshold=abs(f) * 1e-9)
        M.check(np.abs(G / f - H).max() <= scale, "rescaling every energy does not rescale the embedded Hamiltonian: " + info, detail, f)
        M.ev("rescaled energies")
    if often(.4):
        # without couplings that give determinants an energy, second order perturbation theory is quadratic in the couplings and inverse in the stored energy
        c2 = {k: (0.0 if k in ("J", "Jhpar", "Jhper", "VNN", "VNNNper") else x) for k, x in c.items()}
        f, g = 2.0 ** rng.choice([-1, 1]), rng.choice([2.0, 4.0])
        X2 = run1(c=c2) - A
        Y2 = run1(c={k: f * x for k, x in c2.items()}, e=g * e, threshold=1e-9 * f * f / g) - A
        M.check(np.abs(Y2 * g / f ** 2 - X2).max() <= scale * g / f ** 2, "the dynamic dressing is not of second order in the couplings: " + info, detail, f, g)
        if np.abs(X2).max() > 1e-7: M.ev("second order")
    if often(.6):
        st2 = m.states(n, h, n - h - b)
        pos2 = {s: k for k, s in enumerate(st2)}
        q = [pos2[tuple(-x for x in s)] for s in st]
        A2, v2 = np.zeros_like(A), np.zeros_like(v)
        A2[np.ix_(q, q)] = A
        v2[q] = v
        G = run1(b=n - h - b, A=A2, v=v2)
        M.check(close(G[np.ix_(q, q)], H), "the embedding of the opposite-spin sector is not the spin-reversed one: " + info, detail,
                "largest difference %g of dressing %g" % (np.abs(G[np.ix_(q, q)] - H).max(), big))
        M.ev("opposite-spin sectors")
    if big > 1e-7 and often(.5):
        # the threshold left out is 1e-6: energies brought to that scale
        x = np.abs(X[np.abs(X) > big * 1e-3])
        f = 10 ** rng.uniform(-6.3, -5.3) / float(rng.choice(list(x)))
        k = dict(c={k: f * y for k, y in c.items()}, A=f * A, e=f * e)
        M.check(np.abs(run1(**k, threshold=None) - run1(**k, threshold=1e-6)).max() <= f * scale, "the threshold left out is not 1e-6: " + info, detail, f)
        M.ev("default thresholds")
    if big > 1e-7 and often(.6):
        T = big * rng.choice([.01, .03, .1, .3])
        Y = run1(threshold=T) - H0
        M.check(np.abs(Y - Y.T).max() <= scale, "with a threshold the embedded Hamiltonian is not symmetric: " + info, detail, T)
        if second.clear(T):
            check_matrix(M, Y, second.dressing(T), "dynamic dressing with the threshold %g, %s, %s" % (T, info, detail), st)
            M.ev("thresholds compared")
        if not neigh: M.check(close(Y[np.ix_(p, p)], Y), "with a threshold the dressing from four sides is not invariant under a quarter turn: " + info, detail, T)
        M.ev("intermediate thresholds")
        # a coupling is neglected for its size, whatever its sign: opposite energies keep the same couplings
        f = -2.0 ** rng.choice([-1, 0, 1])
        G = run1(c={k: f * x for k, x in c.items()}, A=f * A, e=f * e, threshold=-f * T)
        M.check(np.abs(G / f - H0 - Y).max() <= scale, "with a threshold, changing the sign of every energy does not change that of the embedded Hamiltonian: " + info, detail, T, f)
        M.ev("opposite energies with a threshold")
    M.input((tuple(case["shape"]), h, b, neigh, reverse, tuple(round(x, 4) for x in c.values())) if big > 1e-7 else None, dict(block=info, largest_dynamic_coupling=big, couplings=c))
