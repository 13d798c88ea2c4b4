from common import *
import random
ID = "C05"
RULE = ("Determinants of random fillings on lattices of all numbering schemes from 1 to about 60 sites (all determinants of small "
        "lattices): species lists and site spins read back, spin reversal of determinant, basis and vector, joining of two "
        "determinants with different fillings, configurations with and without a site restriction. Oracle: occupation per site. "
        "Non-trivial: at least two species present.")
REQUIRED = {"readings": 5000, "reversals": 1500, "reversed vectors": 100, "joins": 800, "sites beyond 8": 1000, "restricted readings": 300, "sites in another order": 1000}


def cases(tier, rng):
    out = []
    big = 1 if tier == "quick" else 5
    for kind in KINDS:
        for s in m.shapes(12):
            n = m.lattice_sites(kind, s)
            if n <= 24: out.append(dict(kind=kind, shape=s, k=10 * big, seed=rng.randrange(10 ** 9), _w=n + 4))
    for s in [(5, 5, 1), (6, 5, 1), (3, 2, 3), (2, 2, 3), (1, 1, 5), (4, 9, 1), (7, 8, 1), (1, 1, 7)]:
        for kind in KINDS:
            if m.lattice_sites(kind, s) <= 100: out.append(dict(kind=kind, shape=s, k=12 * big, seed=rng.randrange(10 ** 9), _w=80))
    for s in [(2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 4, 1), (5, 1, 1), (2, 3, 1), (3, 2, 1), (1, 6, 1)] + ([(7, 1, 1), (2, 4, 1)] if big > 1 else []):
        n = s[0] * s[1]
        for h, b in fillings(n):
            out.append(dict(kind='periodic', shape=s, exhaustive=(h, b), seed=rng.randrange(10 ** 9), _w=dim(n, h, b)))
    for n in (9, 10, 12, 16):
        for h, b in rng.sample(extreme_fillings(n, 300), 5):
            out.append(dict(kind='periodic', shape=rng.choice(same_size_shapes(n)), exhaustive=(h, b), seed=rng.randrange(10 ** 9), _w=dim(n, h, b)))
    rng.shuffle(out)
    return out


def listed(st, h, b):
    """The determinant, now and then with the sites of each species in another order."""
    det = m.to_det(st)
    r = random.Random(repr(st))
    if r.random() < .7: return det
    parts = [det[:h], det[h:h + b], det[h + b:]]
    for p in parts: r.shuffle(p)
    return sum(parts, [])


def readings(M, L, cfg, st, h, b):
    det = listed(st, h, b)
    if det != m.to_det(st): M.ev("sites in another order")
    for v in (0, 1, -1):
        got = sorted(bC.get_indexes_of(cfg, det, v))
        M.check(got == [s for s in range(L.n) if st[s] == v], "sites of species %d in %s" % (v, det), got)
    for s in range(L.n):
        got = bC.get_spin_site(cfg, det, s)
        M.check(got == st[s] / 2, "spin of site %d in %s (%d holes, %d down)" % (s, det, h, b), got)
    M.ev("readings")
    if L.n > 8: M.ev("sites beyond 8", L.n - 8)


def same_config(M, A, B, nbeta):
    for k in ("nsites", "nholes", "lattice_type", "nbh", "nbv", "nblocs_side", "nb_conf", "sites_restriction", "doping"):
        M.check(getattr(A, k) == getattr(B, k), "spin reversal changed %s of the configuration" % k, getattr(A, k), getattr(B, k))
    M.check(np.array_equal(A.bond_matrix, B.bond_matrix), "spin reversal changed the adjacency matrix")
    M.check(B.nbeta == A.nalpha and B.nalpha == A.nbeta and B.spin_number == -A.spin_number, "electron numbers of the reversed configuration",
            (A.nalpha, A.nbeta, A.spin_number), (B.nalpha, B.nbeta, B.spin_number))


def reversal(M, cfg, st, h, b):
    det = m.to_det(st)
    cf, d = bC.reverse_spins(cfg, listed(st, h, b))
    exp = m.to_det(tuple(-v for v in st))
    M.check(list(d) == exp, "spin reversal of %s (%d holes, %d down)" % (det, h, b), list(d), exp)
    same_config(M, cfg, cf, b)
    c2, d2 = bC.reverse_spins(cf, list(d))
    M.check(list(d2) == det and c2.nbeta == b, "spin reversal twice", det, list(d2))
    M.ev("reversals")


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    if "exhaustive" in case:
        other = [(k, s) for k in KINDS for s in same_size_shapes(L.n, k)]
        if rng.random() < .3: L = lattice(*rng.choice(other))
        h, b = case["exhaustive"]
        cfg = L.config(bC, lF, h, b)
        basis = bC.construct_basis(cfg)
        limited = bC.construct_basis(L.config(bC, lF, h, b, restriction=some_restriction(rng, L.n, 1)))
        sts = m.states(L.n, h, b)
        for st in sts:
            readings(M, L, cfg, st, h, b)
            reversal(M, cfg, st, h, b)
            M.input((case["kind"], case["shape"], st) if len(set(st)) > 1 else None, dict(state=st))
        if rng.random() < .3:
            L = lattice(*rng.choice([o for o in other if o[0] != 'periodic'] or other))
            cfg = L.config(bC, lF, h, b)
            basis = bC.construct_basis(cfg)
        flip = bC.reverse_spins_basis(basis)
        same_config(M, cfg, flip.configuration, b)
        M.check([list(d) for d in flip.determinants] == [m.to_det(tuple(-v for v in s)) for s in sts], "reversed basis", (L.W, L.H, h, b))
        flip = bC.reverse_spins_basis(limited)
        same_config(M, limited.configuration, flip.configuration, b)
        for shape in ((len(sts), 1), (len(sts), 3)):
            v = np.random.randn(*shape)
            if random.Random(repr(v)).random() < .3: v = np.rint(2 * v)
            w = bC.reverse_spins_vect(limited if shape[1] > 1 else basis, disguised(random.Random(repr(v)), v))
            pos = {s: k for k, s in enumerate(m.states(L.n, h, L.n - h - b))}
            exp = np.zeros(shape)
            for k, s in enumerate(sts): exp[pos[tuple(-x for x in s)]] = v[k]
            M.check(np.asarray(w).shape == shape and np.array_equal(w, exp), "reversed vector", (L.W, L.H, h, b))
            M.ev("reversed vectors")
        return
    for _ in range(case["k"]):
        h = rng.randint(0, L.n)
        b = rng.randint(0, L.n - h)
        cfg = L.config(bC, lF, h, b)
        st = m.random_state(rng, L.n, h, b)
        readings(M, L, cfg, st, h, b)
        R = sorted(rng.sample(range(L.n), rng.randint(1, L.n)))
        R2 = sorted(rng.sample(range(L.n), rng.randint(1, L.n)))
        restr = rng.choice([None, None, R, (R, R2)])
        cfg_r = L.config(bC, lF, h, b, restriction=restr)
        det = m.to_det(st)
        if restr is not None:
            for s in range(L.n): M.check(bC.get_spin_site(cfg_r, det, s) * 2 == st[s], "spin of site %d where the sites are restricted" % s, det, restr)
            for t in (0, 1):
                allowed = set(restr[t]) if isinstance(restr, tuple) else set(restr)
                for v in (0, 1, -1):
                    got = sorted(bC.get_indexes_of(cfg_r, det, v, t))
                    M.check(got == [s for s in range(L.n) if st[s] == v and s in allowed], "restricted sites of species %d" % v, det, restr, t, got)
                    if t == 0: M.check(sorted(bC.get_indexes_of(cfg_r, det, v)) == got, "sites of species %d without naming the restriction list" % v, det, restr, got)
            M.ev("restricted readings")
        reversal(M, cfg_r, st, h, b)
        M.raises(ValueError, bC.get_indexes_of, cfg, det, 2)
        M.input((case["kind"], case["shape"], st) if len(set(st)) > 1 else None, dict(state=st))
        # joining
        L2 = L if rng.random() < .6 else lattice('periodic', rng.choice([(1, 1, 1), (2, 2, 1), (3, 1, 1), (3, 4, 1)]))
        h2 = rng.randint(0, L2.n)
        b2 = rng.randint(0, L2.n - h2)
        st2 = m.random_state(rng, L2.n, h2, b2)
        c2 = L2.config(bC, lF, h2, b2)
        d = list(bC.extend_determinant(cfg_r, c2, list(det), m.to_det(st2)))
        got = m.to_state(d, h + h2, b + b2)
        M.check(got == st + st2, "joined determinant", "first block %s" % (st,), "second block %s" % (st2,), "joined %s" % (d,))
        M.check(d == m.to_det(st + st2), "the joined determinant does not list the sites of each species in ascending order", det, m.to_det(st2), d)
        M.ev("joins")
