from common import *
import random
ID = "C14"
RULE = ("Total spin, raising-lowering, z-z and z operators of the repository applied to random, sparse and integer vectors (flat and column) "
        "and to exact total-spin eigenvectors, on all fillings of small lattices and extreme fillings of larger ones, with and without "
        "restricted sites. Oracle: spin-1/2 matrices built independently. Non-trivial: both spin directions present.")
REQUIRED = {"S2 applications": 500, "S+S- applications": 1000, "SzSz applications": 1000, "spin eigenvectors": 500, "reported multiplicities": 500,
            "lattices beyond 8 sites": 20, "restricted configurations": 60,
            "long vectors": 5, "spin eigenvectors with zeros": 60, "spin numbers of superpositions": 400}
NAMES = {0: "singlet", 1: "doublet", 2: "triplet", 3: "quartet", 4: "quintet"}


def cases(tier, rng):
    out = []
    dmax = 70 if tier == "quick" else 260
    for kind in KINDS:
        for s in m.shapes(25):
            n = m.lattice_sites(kind, s)
            if n > (16 if tier == "quick" else 20) or (s[2] > 1 and rng.random() < .5): continue
            fs = extreme_fillings(n, dmax if n < 9 else dmax // 2)
            if n > 5: fs = rng.sample(fs, min(len(fs), 5 if n <= 9 else 2) * (1 if tier == "quick" else 2) if len(fs) > 12 else len(fs))
            if n > 5 and kind != 'periodic': fs = fs[:2]
            out += [dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n * n / 100 + 1) for h, b in fs]
    # vectors longer than 300 and lattices made of large or several ring subblocks
    big = []
    for kind in KINDS:
        for s in m.shapes(25):
            n = m.lattice_sites(kind, s)
            if n > 18: continue
            fs = [(h, b) for h, b in fillings(n) if n <= 10 and 300 < dim(n, h, b) <= (430 if tier == "quick" else 1000)]
            if fs: big.append((kind, s, rng.choice(fs)))
            fs = [(h, b) for h, b in fillings(n) if 1 < dim(n, h, b) <= 160 and 0 < b < n - h] if s[2] > 2 or (s[2] > 1 and kind == 'ring') else []
            if fs:
                h, b = rng.choice(fs)
                out.append(dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n * n / 100 + 1))
    for kind, s, (h, b) in rng.sample(big, min(len(big), 10 if tier == "quick" else 40)):
        n = m.lattice_sites(kind, s)
        out.append(dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n * n / 100 + 1))
    return out


def vectors(rng, n):
    v = np.array([rng.gauss(0, 1) for _ in range(n)])
    r = rng.random()
    if r < .2: v[np.array([rng.random() < .7 for _ in range(n)])] = 0
    elif r < .35: v = np.rint(3 * v)
    elif r < .5: v *= 10.0 ** rng.randint(-6, 6)
    return v if v.any() else np.ones(n)


def shaped(rng, v):
    return disguised(rng, v if rng.random() < .4 else v.reshape(-1, 1))


def flat(M, got, v, what):
    M.check(np.shape(got) == v.shape, what + " does not have the shape of the vector", np.shape(got), v.shape)
    return np.asarray(got, dtype=float).reshape(-1)


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    h, b, n = case["h"], case["b"], L.n
    R = some_restriction(rng, n, .25)
    cfg = L.config(bC, lF, h, b, restriction=R)
    if R: M.ev("restricted configurations")
    if n > 8: M.ev("lattices beyond 8 sites")
    if dim(n, h, b) > 300: M.ev("long vectors")
    st = m.states(n, h, b)
    idx = {s: k for k, s in enumerate(st)}
    occ = np.array(st)
    S = m.s2_matrix(n, h, b)
    N = len(st)
    where = "%s W=%d H=%d, %d holes, %d down" % (L.kind, L.W, L.H, h, b)
    M.input((case["kind"], case["shape"], h, b) if 0 < b < n - h else None, dict(lattice=where))
    close = lambda x, y: np.abs(x - y).max() <= 1e-9 * (1e-300 + np.abs(y).max() + np.abs(v).max()) * (1 + n)

    for _ in range(2):
        v = vectors(rng, N)
        x = shaped(rng, v)
        keep = x.copy()
        M.check(close(flat(M, itr.compute_S2(cfg, x), x, "S^2 of a vector"), S @ v), "S^2 of a vector on " + where, v.tolist())
        e = itr.compute_S2_exp_val(cfg, x)
        exp = v @ S @ v / (v @ v)
        M.check(np.ndim(e) == 0 and abs(e - exp) < 1e-8 * (1 + n * n), "expectation value of S^2 on " + where, v.tolist(), e, exp)
        sc = rng.choice([-1.0, 3.7, -1e-4, 1e5])
        e2 = itr.compute_S2_exp_val(cfg, sc * x)
        M.check(abs(e - e2) < 1e-8 * (1 + n * n), "the expectation value of S^2 depends on the normalisation or sign of the vector", sc, e, e2)
        s2 = np.sqrt(1 + 4 * exp) - 1              # 2s of s(s+1) = <S^2>
        if abs(s2 % 1 - .5) > 1e-5:
            got = itr.compute_spin_number(cfg, x)
            M.check(np.ndim(got) == 0 and got == round(s2) / 2, "spin number of a vector on " + where, v.tolist(), got, s2 / 2)
            M.ev("spin numbers of superpositions")
        sz, xz = itr.compute_spin_z(cfg, x)
        M.check(sz == (n - h - 2 * b) / 2 and close(flat(M, xz, x, "Sz of a vector"), sz * v), "z component of the spin on " + where, sz)
        M.check(np.array_equal(x, keep), "a spin operator modified its vector on " + where)
        M.ev("S2 applications")
    M.check(itr.compute_S2_exp_val(cfg, np.zeros((N, 1))) == 0, "expectation value of S^2 in the zero vector")
    if n > 1:
        for _ in range(4):
            i, j = rng.sample(range(n), 2)
            v = vectors(rng, N)
            x = shaped(rng, v)
            got = flat(M, itr.compute_spins_z_two_bodies(cfg, x, i, j), x, "SzSz of a vector")
            M.check(close(got, v * occ[:, i] * occ[:, j] / 4), "Sz_%d Sz_%d on %s" % (i, j, where), v.tolist(), got.tolist())
            M.ev("SzSz applications")
            exp = np.zeros(N)
            for k, s in enumerate(st):
                if s[i] == -1 and s[j] == 1:
                    exp[idx[m.moved(s, [(i, 1), (j, -1)])]] += v[k]
            got = flat(M, itr.compute_S_plus_S_minus(cfg, x, i, j), x, "S+S- of a vector")
            M.check(close(got, exp), "S+_%d S-_%d on %s" % (i, j, where), v.tolist(), got.tolist(), exp.tolist())
            M.ev("S+S- applications")
            k = rng.randrange(N)
            det = m.to_det(st[k])
            d2 = list(det)
            im = itr.compute_S_plus_S_minus_det(cfg, d2, i, j)
            M.check(d2 == det, "S+S- modified its determinant", det, d2)
            if st[k][i] == -1 and st[k][j] == 1:
                M.check(im is not None and list(im) == m.to_det(m.moved(st[k], [(i, 1), (j, -1)])), "S+_%d S-_%d of a determinant" % (i, j), det, im)
            else:
                M.check(not im, "S+_%d S-_%d does not annihilate a determinant" % (i, j), det, im)
            M.check(itr.compute_spins_z_two_bodies_det(cfg, list(det), i, j) == st[k][i] * st[k][j] / 4, "Sz_%d Sz_%d of a determinant" % (i, j), det)
    w, U = np.linalg.eigh(S)
    holes_of = [tuple(k for k, x in enumerate(s) if x == 0) for s in st]
    patterns = sorted(set(holes_of))
    cols, numbers = [], []
    for s2 in sorted(set(int(round(np.sqrt(4 * x + 1))) - 1 for x in w)):   # 2s
        space = U[:, np.abs(w - s2 / 2 * (s2 / 2 + 1)) < 1e-6]
        M_coef = np.array([rng.gauss(0, 1) for _ in range(space.shape[1])])
        v = space @ M_coef
        if rng.random() < .4:               # S^2 leaves the holes where they are: the components of single hole patterns are eigenvectors as well
            keep = {p for p in patterns if rng.random() < .5}
            w2 = np.where([p in keep for p in holes_of], v, 0.0)
            if np.linalg.norm(w2) > 1e-6:
                v = w2
                M.ev("spin eigenvectors with zeros")
        v *= rng.choice([1, -1, 5.5, -1e-3]) / np.linalg.norm(v)
        got = itr.compute_spin_number(cfg, shaped(rng, v))
        M.check(np.ndim(got) == 0 and got == s2 / 2, "spin number of a spin eigenvector on " + where, v.tolist(), got, s2 / 2)
        M.check(itr.compute_spin_multiplicity(got) == NAMES.get(s2, "multiplet"), "multiplicity name of spin %s" % got, itr.compute_spin_multiplicity(got))
        M.ev("spin eigenvectors")
        cols.append(v)
        numbers.append(s2)
    order = list(range(len(cols)))
    rng.shuffle(order)
    V = np.array([cols[k] for k in order]).T
    basis = bC.construct_basis(cfg)
    spins, names = dav.compute_spin_and_multiplicity(basis, disguised(rng, V))
    M.check(len(spins) == len(names) == len(order), "compute_spin_and_multiplicity does not report every vector", spins, names)
    for k, e, name in zip(order, spins, names):
        s = numbers[k] / 2
        M.check(abs(e - s * (s + 1)) < 1e-6, "compute_spin_and_multiplicity: S^2 of a vector of spin %s on %s" % (s, where), spins)
        M.check(name == NAMES.get(numbers[k], "multiplet"), "compute_spin_and_multiplicity: name of spin %s" % s, names)
        M.ev("reported multiplicities")
