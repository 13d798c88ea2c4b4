from common import *
import random
ID = "C16"
RULE = ("Dominant determinants requested for vectors with tied, vanishing, opposite and generic amplitudes in the accepted shapes, for every "
        "n up to beyond the dimension. Oracle: the reported absolute values are the sorted head of the vector, each determinant appears "
        "once, with its own signed coefficient. Non-trivial: dimension above one.")
REQUIRED = {"rankings": 2000, "rankings with ties": 1000, "complex vectors": 150, "displayed rankings": 400, "indexed rankings": 800, "n beyond the dimension": 100, "bases beyond 300 determinants": 6}


def cases(tier, rng):
    out = []
    for s in m.shapes(16):
        n = m.lattice_sites('periodic', s)
        if n < 1: continue
        fs = extreme_fillings(n, 200 if tier == "quick" else 1500)
        fs = rng.sample(fs, min(len(fs), 7 if tier == "quick" else 25))
        out += [dict(kind='periodic', shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) / 20 + 1) for h, b in fs]
    for kind in ('clusters', 'peripheral'):
        for s in m.shapes(5):
            n = m.lattice_sites(kind, s)
            if n > 14: continue
            fs = extreme_fillings(n, 150)
            out += [dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) / 20 + 1) for h, b in rng.sample(fs, min(len(fs), 6))]
    big = [(kind, s, h, b) for kind in KINDS for s in m.shapes(16) for n in [m.lattice_sites(kind, s)] if 5 < n < 14 for h, b in fillings(n) if 300 < dim(n, h, b) <= (1500 if tier == "quick" else 4000)]
    for kind, s, h, b in rng.sample(big, min(len(big), 12 if tier == "quick" else 60)):
        out.append(dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(m.lattice_sites(kind, s), h, b) / 20 + 1))
    return out


def ranking(M, v, nd, pairs, what):
    """pairs: [(coefficient, index)]."""
    want = sorted(np.abs(v), reverse=True)[:nd]
    got = [abs(c) for c, _ in pairs]
    M.check(got == want if np.isrealobj(v) else len(got) == len(want) and np.allclose(got, want, rtol=1e-13, atol=0), "%s: not the largest amplitudes in decreasing order" % what, v.tolist(), nd, pairs)
    M.check(len({k for _, k in pairs}) == len(pairs), "%s: a determinant is listed twice" % what, v.tolist(), nd, pairs)
    M.check(all(c == v[k] for c, k in pairs), "%s: a determinant is not paired with its own coefficient" % what, v.tolist(), nd, pairs)
    M.ev("rankings")


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    h, b, n = case["h"], case["b"], L.n
    cfg = L.config(bC, lF, h, b, restriction=some_restriction(rng, n))
    basis = bC.construct_basis(cfg)
    N = len(basis.determinants)
    if N > 300: M.ev("bases beyond 300 determinants")
    where = "%s W=%d H=%d, %d holes, %d down" % (L.kind, L.W, L.H, h, b)
    for _ in range(8):
        r = rng.random()
        v = np.array([rng.gauss(0, 1) for _ in range(N)])
        if r < .25: v = np.array([float(rng.choice([-2, -1, 0, 1, 2])) for _ in range(N)])
        elif r < .4: v = np.abs(v[rng.randrange(N)]) * np.array([float(rng.choice([-1, 1])) for _ in range(N)])
        elif r < .5: v = np.array([rng.choice([x, -x, x * (1 + 2e-16)]) for x in [rng.gauss(0, 1)] for _ in range(N)])
        elif r < .6: v[np.array([rng.random() < .7 for _ in range(N)])] = 0
        elif r < .65: v = np.zeros(N)
        elif r < .75:
            v = v + 1j * np.array([rng.gauss(0, 1) for _ in range(N)]) if rng.random() < .7 else np.array([rng.choice((1, -1, 1j, -1j)) * rng.choice((0, 1, 2)) for _ in range(N)])
            M.ev("complex vectors")
        ties = len(set(np.abs(v))) < N
        nd = rng.choice([0, 1, 2, 3, N - 1, N, N + 1, N + 7, rng.randint(0, N)])
        nd = max(nd, 0)
        x = disguised(rng, rng.choice([v, v.reshape(-1, 1), v.reshape(1, -1)]))
        keep = x.copy()
        co, dets = bC.get_dominant_determinants(basis, x, nd)
        M.check(len(co) == len(dets) == min(nd, N), "number of dominant determinants on " + where, nd, N, co, dets)
        for d in dets: M.check(m.canonical(list(d), h, b) and sorted(d) == list(range(n)), "a dominant determinant is not a determinant", d)
        ranking(M, v, nd, [(c, m.rank(list(d), h, b)) for c, d in zip(co, dets)], "dominant determinants on " + where)
        M.check(np.array_equal(x, keep) and x.shape == keep.shape, "get_dominant_determinants modified its vector")
        if ties and nd > 1: M.ev("rankings with ties")
        if nd > N: M.ev("n beyond the dimension")
        M.input((case["kind"], case["shape"], tuple(v), nd) if N > 1 and nd else None, dict(lattice=where, vector=str(v[:8].tolist()), n=nd))
        d = iC.get_most_dominant_determinants(basis.determinants, disguised(rng, v), nd)
        M.check(all(0 <= k < N for k, c in d), "an index of a dominant determinant is not a position in the basis on " + where, list(d), nd)
        M.check(all(list(det) == list(basis.determinants[k]) for (k, c), det in d.items()), "an indexed dominant determinant is not that of its index on " + where)
        M.check(len(d) == min(nd, N), "number of indexed dominant determinants on " + where, nd, list(d))
        ranking(M, v, nd, [(c, k) for (k, c) in d], "indexed dominant determinants on " + where)
        M.ev("indexed rankings")
        if L.kind == 'periodic':
            co2, shown = bC.get_displayable_dominant_determinants(basis, x, nd)
            M.check(list(co2) == list(co), "the displayed coefficients are not those of the dominant determinants", co, co2)
            M.check([parse(s) for s in shown] == [grid(L, m.to_state(list(d), h, b)) for d in dets], "the displayed determinants are not the dominant ones on " + where, dets, shown)
            M.ev("displayed rankings")


SYM = {'\u2191': 1, '\u2193': -1, '0': 0}


def parse(text):
    rows = [[SYM[ch] for ch in line if ch in SYM] for line in text.split('\n')]
    return [r for r in rows if r]


def grid(L, st):
    return [[st[L.at[x, y]] for x in range(L.W)] for y in reversed(range(L.H))]
