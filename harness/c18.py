from common import *
import random, struct, copy
import scipy.sparse as sp
ID = "C18"
RULE = ("Histories of saves (plain, ring-embedding, block-embedding variants), loads, reloads and overwrites of computations over lattices of the three numbering "
        "schemes, fillings, restrictions and selections, with eigen-data and couplings made of arbitrary bit patterns or really computed; every file ever written is "
        "reloaded and compared bit for bit with what was last saved in it, and computations are repeated on loaded data. Non-trivial: at least two distinct numbers "
        "in the eigenvectors and more than one determinant.")
REQUIRED = {"saves plain": 300, "saves peripheral": 150, "saves blocks": 150, "loads compared": 800, "overwrites": 300, "overwrites by a smaller computation": 60,
            "computations repeated on loaded data": 50, "restricted": 150, "exotic floats": 20000, "lattice_type clusters": 100, "lattice_type peripheral": 100}
ASSUMPTIONS = ["saved numbers are finite; a starting vector given to the eigensolver is documented as discarded on saving"]


def cases(tier, rng):
    return [dict(steps=14, real=(i % 4 == 0), seed=rng.randrange(10 ** 9)) for i in range(96 if tier == "quick" else 1500)]


def exotic(rng, M):
    M.ev("exotic floats")
    r = rng.random()
    if r < .25: return rng.uniform(-1, 1)
    if r < .4: return rng.choice([0.0, -0.0, 5e-324, 1 / 3, 1e308, -1e-308, 2.0 ** 53 + 2, 0.1 + 0.2, 1e22, 123456789.0, 4.35, 1e-7, 1e16, -1.0, 1.7976931348623157e308])
    while True:
        x = struct.unpack("<d", rng.getrandbits(64).to_bytes(8, "little"))[0]
        if np.isfinite(x): return x


def make(rng, M, real):
    kind = rng.choice(KINDS)
    large = not real and rng.random() < .01
    while large:
        s = rng.choice(m.shapes(12))
        n = m.lattice_sites(kind, s)
        h, b = random_filling(rng, n)
        if n <= 16 and 1000 <= dim(n, h, b) <= 4000: break
    while not large:
        s = rng.choice(m.shapes(8))
        n = m.lattice_sites(kind, s)
        if n > 12: continue
        h, b = random_filling(rng, n)
        if 1 <= dim(n, h, b) <= (40 if not real else 30): break
    L = lattice(kind, s)
    restriction = None
    if rng.random() < .4:
        k = rng.randint(1, n)
        part = lambda: rng.sample(range(n), rng.randint(1, n))
        restriction = part() if rng.random() < .5 else (part(), part())
        M.ev("restricted")
    M.ev("lattice_type " + kind)
    cfg = L.config(bC, lF, h, b, restriction)
    c = m.random_couplings(rng) if real else {k: rng.choice([exotic(rng, M), round(rng.uniform(-2, 2), 3), rng.randint(-3, 3)]) for k in m.COUPLINGS}
    terms = [t for t in m.TERMS if rng.random() < .6] if rng.random() < .8 else list(m.TERMS)
    nb = rng.randint(1, 4)
    guess = None if rng.random() < .6 else np.random.rand(dim(n, h, b), min(nb, dim(n, h, b)))
    if real:
        dg = dav.Diagonalization(nb_val=nb, stp=200, tol=1e-6, dim_max=0, initial_guess=guess)
    else:
        dg = dav.Diagonalization(nb_val=rng.randint(1, 12), stp=rng.choice([100, 1e3, 1e4, 37]), tol=rng.choice([1e-3, 1e-9, exotic(rng, M)]), dim_max=rng.randint(0, 50), initial_guess=guess)
    bi = switches(terms, bV_embedding=rng.random() < .4, b_spin_multipicities=rng.random() < .6)
    data = iC.Data(cfg, itr.Interactions(**c), dg, bi)
    if real:
        return iC.perform_initial_computations(data), L
    d = dim(n, h, b)
    if large: M.ev("bases beyond 1000 determinants")
    A = np.array([[exotic(rng, M) if rng.random() < .4 else 0.0 for _ in range(d)] for _ in range(d)]) if d <= 12 else sp.diags([np.random.rand(d), np.random.rand(d - 1)], [0, 1])
    H = sp.csr_matrix(A)
    nv = rng.randint(1, min(5, d))
    vects = np.array([[exotic(rng, M) for _ in range(nv)] for _ in range(d)])
    vals = [exotic(rng, M) for _ in range(nv)]
    if rng.random() < .3: vals = [np.float64(v) for v in vals]
    spins = [exotic(rng, M) for _ in range(nv)] if bi.b_spin_multipicities else []
    times = iC.Times(exotic(rng, M), rng.random(), rng.random() * 1e4)
    return iC.DataComputations(data, [m.to_det(x) for x in m.states(n, h, b)], H, dav.Eigenstates(vals, spins, vects), times), L


def run(case, M):
    rng = random.Random(case["seed"])
    with Scratch() as S:
        files, kinds, pool = {}, {}, []
        for step in range(case["steps"]):
            if pool and rng.random() < .35:
                k = rng.randrange(len(pool))
                if rng.random() < .5:
                    mutate(rng, M, pool[k][0])
                    pool[k] = (pool[k][0], None)
                d, L = pool[k]
            elif pool and rng.random() < .5:
                d, L = sibling(rng, M, rng.choice(pool)[0]), None
            else:
                d, L = make(rng, M, case["real"])
            pool.append((d, L))
            kind = rng.choice(["plain", "plain", "peripheral", "blocks"])
            if kind == "plain" and d.times is None: kind = "peripheral"
            before = snap(d)
            if kind == "plain": args = (iC.save_data, d)
            elif kind == "peripheral": args = (emb.save_data_peripheral_embedding, d)
            else: args = (emb.save_data_embedding_blocks, d, *[rng.random() < .5 for _ in range(3)])
            _, out = S.written(*args)
            M.check(len(out) == 1, "saving wrote %d files" % len(out), out)
            M.ev("saves " + kind)
            same_snap(M, snap(d), before, "saving altered the results in memory")
            exp = dict(before)
            if kind != "plain": exp["times"] = None
            f = out[0]
            if f in files:
                M.ev("overwrites")
                if len(files[f]["determinants"]) > len(exp["determinants"]) or files[f]["eigvects"][0] > exp["eigvects"][0]: M.ev("overwrites by a smaller computation")
            files[f] = exp
            for g in {f, rng.choice(sorted(files)), rng.choice(sorted(files))}:
                r = iC.load_data(g)
                same_snap(M, snap(r), files[g], "loading %s" % g)
                M.ev("loads compared")
                M.check(type(r.hamiltonian) is type(d.hamiltonian) or sp.issparse(r.hamiltonian), "the loaded Hamiltonian is not a sparse matrix")
                M.input((g, files[g]) if len(set(files[g]["eigvects"][1])) > 1 and len(files[g]["determinants"]) > 1 else None,
                        dict(file=g, determinants=len(files[g]["determinants"]), eigvals=files[g]["eigvals"][:3]))
                if rng.random() < .3: scribble(r)
                elif rng.random() < .3:
                    pool.append((r, None))
            if case["real"] and L is not None and not hasattr(d, 'verif_altered') and kind == "plain":
                again(M, d, iC.load_data(f), rng)
        for g in files:
            same_snap(M, snap(iC.load_data(g)), files[g], "loading %s at the end" % g)
            M.ev("loads compared")


def scribble(r):
    """Modifies a loaded computation; later loads must not be affected."""
    r.determinants[0][0] = 77
    r.data.configuration.bond_matrix[0, 0] = 5
    r.hamiltonian.data[:] = 3
    r.eigenstates.eigvects[:] = 0
    r.eigenstates.eigvals.append(1.0)
    r.data.interactions.t = 99


def mutate(rng, M, d):
    """Changes a computation in memory, so that saving it again writes other values."""
    d.verif_altered = True
    d.data.interactions = itr.Interactions(**{k: exotic(rng, M) for k in m.COUPLINGS})
    d.eigenstates.eigvects = np.array([[exotic(rng, M)] for _ in range(len(d.determinants))])
    d.eigenstates.eigvals = [exotic(rng, M)]
    d.eigenstates.spins = []


def sibling(rng, M, d):
    """Another computation of the same lattice and selection (so of the same file), possibly with fewer data."""
    e = copy.deepcopy(d)
    mutate(rng, M, e)
    e.hamiltonian = sp.csr_matrix(np.diag([exotic(rng, M) for _ in range(len(d.determinants))]))
    return e


def again(M, d, r, rng):
    """The same calculations on the original and on the loaded data."""
    c, cl = d.data.configuration, r.data.configuration
    B, Bl = bC.Basis(c, d.determinants), bC.Basis(cl, r.determinants)
    for rest in (None, c.sites_restriction):
        kw, kwl = ({}, {}) if rest is None else (dict(sites_restriction=rest), dict(sites_restriction=cl.sites_restriction))
        A = hC.build_hamiltonian(c, d.data.interactions, B, d.data.bool_interactions, **kw).toarray()
        Al = hC.build_hamiltonian(cl, r.data.interactions, Bl, r.data.bool_interactions, **kwl).toarray()
        M.check(np.array_equal(A, Al), "the Hamiltonian rebuilt from loaded data differs", A, Al)
    v, vl = d.eigenstates.eigvects[:, [0]], r.eigenstates.eigvects[:, [0]]
    M.check(abs(itr.compute_spin_number(c, v) - itr.compute_spin_number(cl, vl)) < 1e-9, "spin number of the loaded ground state differs")
    M.check(bC.get_spins_probabilitites_lattice(B, v) == bC.get_spins_probabilitites_lattice(Bl, vl), "site probabilities of the loaded ground state differ")
    for det in rng.sample(d.determinants, min(3, len(d.determinants))):
        M.check(bC.get_index_in_basis(c, det) == bC.get_index_in_basis(cl, det), "index in the loaded configuration differs", det)
        x = itr.compute_dynamic_interactions(c, d.data.interactions, d.data.bool_interactions, det)
        y = itr.compute_dynamic_interactions(cl, r.data.interactions, r.data.bool_interactions, det)
        M.check(x == y, "couplings of a determinant in the loaded computation differ", det, x, y)
        M.check(itr.compute_energy(c, d.data.interactions, det) == itr.compute_energy(cl, r.data.interactions, det), "energy of a determinant in the loaded computation differs", det)
    seed = rng.randrange(2 ** 31)
    np.random.seed(seed)
    a = iC.perform_initial_computations(d.data)
    np.random.seed(seed)
    b = iC.perform_initial_computations(r.data)
    sa, sb = snap(a, times=False), snap(b, times=False)
    for k in ("hamiltonian", "determinants"):
        M.check(sa[k] == sb[k], "%s computed from loaded data differs" % k)
    M.check(len(a.eigenstates.eigvals) == len(b.eigenstates.eigvals) and np.allclose(a.eigenstates.eigvals, b.eigenstates.eigvals, atol=1e-9, rtol=1e-9),
            "energies computed from loaded data differ", a.eigenstates.eigvals, b.eigenstates.eigvals)
    M.ev("computations repeated on loaded data")
