"""Workload pieces shared by the property modules."""
import numpy as np
from core import Guard, call, Violation
import model as m

lF, bC, itr, hC, dav, iC = (Guard(x) for x in ("latticeFunctions", "baseConstruction", "interactions",
                                               "hamiltonianConstruction", "davidson", "initialComputations"))
KINDS = ('periodic', 'clusters', 'peripheral')

_lat = {}
def lattice(kind, s):
    key = (kind,) + tuple(s)
    if key not in _lat:
        _lat[key] = m.Lattice(kind, *s)
    return _lat[key]


def same_size_shapes(n, kind='periodic'):
    """Shapes of one kind with exactly n sites."""
    return [s for s in m.shapes(n) if m.lattice_sites(kind, s) == n]


def some_restriction(rng, n, share=.3):
    """A restriction of the interacting sites: none, one list of sites, or one for starting and one for target sites."""
    if rng.random() >= share: return None
    R = sorted(rng.sample(range(n), rng.randint(1, n)))
    return R if rng.random() < .6 else (R, sorted(rng.sample(range(n), rng.randint(1, n))))


def interactions_of(c):
    return itr.Interactions(**c)


def mild_couplings(rng, bound=1.5, digits=4, zero=.08, special=.2):
    """Couplings of moderate size for computations that diagonalise; every fifth set consists of one kind of number."""
    c = {k: (0.0 if rng.random() < zero else round(rng.uniform(-bound, bound), digits)) for k in m.COUPLINGS}
    if rng.random() < special:
        kind = rng.choice(('int', 'whole', 'numpy', 'negative', 'equal'))
        x = rng.choice((1, -1, .5, round(rng.uniform(-bound, bound), digits)))
        c = {k: {'int': lambda: rng.choice((-2, -1, 1, 2)), 'whole': lambda: float(rng.choice((-2, -1, 1, 2))), 'numpy': lambda: np.float64(v),
                 'negative': lambda: -abs(v), 'equal': lambda: x}[kind]() for k, v in c.items()}
    return c


def small_field(rng, M, c, share=.2):
    """In a share of the cases the couplings that act across a boundary are small."""
    if rng.random() >= share: return c
    M.ev("small fields")
    f = 10.0 ** -rng.randint(2, 4)
    return {k: x * f if k in ("J", "VNN", "VNNNper") and rng.random() < .8 else x for k, x in c.items()}


def switches(terms, **kw):
    return iC.BoolInteractions(**{b: b in terms for b in m.TERMS}, **kw)


def det_states(dets, nholes, nbeta):
    return [m.to_state(list(d), nholes, nbeta) for d in dets]


def full_matrix(M, cfg, basis, c, terms, **kw):
    """Dense Hamiltonian assembled by the repository."""
    H = hC.build_hamiltonian(cfg, interactions_of(c), basis, switches(terms), **kw)
    return dense(M, H, len(basis.determinants))


def dense(M, H, dim):
    M.check(tuple(H.shape) == (dim, dim), "Hamiltonian has the wrong shape", H.shape, dim)
    A = np.asarray(H.toarray())
    M.check(np.isrealobj(A) and np.isfinite(A).all(), "Hamiltonian is not a finite real matrix")
    return A


def reindex(A, basis_states, nholes, nbeta):
    """Matrix from the repository's determinant order to the documented order of the reference."""
    st = m.states(len(basis_states[0]), nholes, nbeta)
    pos = {s: k for k, s in enumerate(basis_states)}
    p = [pos[s] for s in st]
    return A[np.ix_(p, p)], st


def check_matrix(M, A, B, what, st, tol=1e-9):
    d = np.abs(A - B)
    if d.size and d.max() > tol * (1 + np.abs(B).max()):
        i, j = np.unravel_index(d.argmax(), d.shape)
        M.check(False, what, "row %s" % (st[i],), "column %s" % (st[j],), "repository %r, reference %r" % (A[i, j], B[i, j]),
                "%d elements differ" % int((d > tol * (1 + np.abs(B).max())).sum()))
    M.check(True, what)


def counts(seq):
    d = {}
    for x in seq: d[x] = d.get(x, 0) + 1
    return d


def fillings(n):
    return [(h, b) for h in range(n + 1) for b in range(n - h + 1)]


def dim(n, h, b):
    from math import comb
    return comb(n, h) * comb(n - h, b)


def extreme_fillings(n, dmax):
    return [(h, b) for h, b in fillings(n) if 1 <= dim(n, h, b) <= dmax]


# Hamiltonian workloads --------------------------------------------------------------------------------------------------

def matrix_cases(tier, rng, per=1, dmax=90, share=1.0):
    """Complete Hamiltonians: all fillings of small lattices, extreme fillings of larger ones, three numbering schemes."""
    out = []
    full = {'periodic': 5, 'clusters': 6, 'peripheral': 5} if tier == "quick" else {'periodic': 7, 'clusters': 8, 'peripheral': 8}
    big = {'periodic': 16, 'clusters': 16, 'peripheral': 24} if tier == "quick" else {'periodic': 25, 'clusters': 24, 'peripheral': 32}
    if tier != "quick": dmax *= 5
    for kind in KINDS:
        for s in m.shapes(25):
            n = m.lattice_sites(kind, s)
            if n > big[kind] or n < 2: continue
            if s[2] == 1 and n <= full[kind]:
                fs = [f for f in fillings(n)]
            else:
                fs = extreme_fillings(n, dmax if n <= 12 else dmax // 2)
                fs = [f for f in fs if n <= 8 or dim(n, *f) > 1]
                nf = {True: 5, False: 2}[s[2] > 1] if n <= 12 else (2 if s[2] > 1 or n in (16, 24) else 1)
                if kind == 'peripheral': nf = min(nf, 2)
                fs = rng.sample(fs, min(len(fs), nf * per if tier == "quick" else 4 * nf * per))
            for h, b in fs:
                if rng.random() < share:
                    out.append(dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9),
                                    _w=dim(n, h, b) * n * (5 if kind == 'peripheral' else 1) / 50 + 1))
    rng.shuffle(out)
    return out


def image_cases(tier, rng, k=20):
    """Single determinants on lattices whose basis could not be enumerated."""
    out = []
    for kind in KINDS:
        for s in [(3, 3, 1), (3, 4, 1), (4, 3, 1), (2, 2, 2), (4, 4, 1), (1, 1, 4), (5, 4, 1), (2, 1, 3), (1, 2, 3), (6, 2, 1), (2, 6, 1), (5, 5, 1),
                  (1, 9, 1), (9, 1, 1), (3, 2, 2), (2, 3, 2), (6, 6, 1)]:
            n = m.lattice_sites(kind, s)
            if n <= (44 if tier == "quick" else 100):
                out.append(dict(kind=kind, shape=s, images=k if tier == "quick" else 10 * k, seed=rng.randrange(10 ** 9),
                                _w=n * k / 20 * (6 if kind == 'peripheral' else 1)))
    return out


def large_cases(tier, rng, dims, kinds=KINDS):
    """Complete Hamiltonians of large bases: one lattice and filling with a dimension in each of the given ranges."""
    out = []
    for low, high in dims:
        kind = rng.choice(kinds)
        while True:
            s = rng.choice(m.shapes(20))
            n = m.lattice_sites(kind, s)
            if not 8 <= n <= 20: continue
            fs = [(h, b) for h, b in fillings(n) if low < dim(n, h, b) <= high and h and b and n - h - b]
            if fs: break
        h, b = rng.choice(fs)
        out.append(dict(kind=kind, shape=s, h=h, b=b, large=1 + (high > 30000), seed=rng.randrange(10 ** 9), _w=dim(n, h, b) / 15 * (2 if kind == 'peripheral' else 1)))
    return out


def large_matrix(case, M, rng, terms, rows=120, R=None):
    """One Hamiltonian with a large basis: symmetric, and sampled rows (the first, the last and those at the limits of short integers among them) equal to the reference."""
    import scipy.sparse as sp
    L, h, b = lattice(case["kind"], case["shape"]), case["h"], case["b"]
    c = m.random_couplings(rng, hard=False)
    cfg = L.config(bC, lF, h, b, restriction=R)
    basis = bC.construct_basis(cfg)
    N = dim(L.n, h, b)
    where = "Hamiltonian %s on %s W=%d H=%d, %d holes, %d down, dimension %d" % (terms, L.kind, L.W, L.H, h, b, N)
    M.check(len(basis.determinants) == N, "length of the basis: " + where, len(basis.determinants))
    H = hC.build_hamiltonian(cfg, interactions_of(c), basis, switches(terms))
    M.check(H.shape == (N, N), "dimension: " + where, H.shape)
    H = sp.csr_matrix(H)
    bad = abs(H - H.T).max()
    M.check(bad < 1e-9 * (1 + abs(H).max()), "not symmetric: " + where, bad)
    limits = [k for x in (0, 128, 256, 1 << 15, 1 << 16, N) for k in (x - 1, x, x + 1) if 0 <= k < N]
    elements = 0
    for k in set(limits) | {rng.randrange(N) for _ in range(rows)}:
        st = m.to_state(list(basis.determinants[k]), h, b)
        M.check(st is not None and m.rank(list(basis.determinants[k]), h, b) == k, "determinant %d of the basis: %s" % (k, where), basis.determinants[k])
        row = H.getrow(k)
        got = {}
        for j, v in zip(row.indices, row.data):
            s = m.to_state(list(basis.determinants[j]), h, b)
            got[s] = got.get(s, 0) + v
        exp = m.row(L, st, c, terms, R)
        for s in set(got) | set(exp):
            M.check(abs(got.get(s, 0) - exp.get(s, 0)) < 1e-8 * (1 + abs(exp.get(s, 0))), "row %d: %s" % (k, where), c, m.to_det(st), m.to_det(s), got.get(s, 0), exp.get(s, 0))
        elements += len(exp)
    M.ev("rows of large Hamiltonians", len(limits) + rows)
    M.input((case["kind"], tuple(case["shape"]), h, b, terms, 'large') if elements else None, dict(lattice=where))
    return cfg, basis, H, c


def random_filling(rng, n):
    r = rng.random()
    if r < .35: h = rng.randint(0, min(3, n))
    elif r < .7: h = rng.randint(0, n)
    else: h = max(0, n - rng.randint(1, min(4, n)))
    b = rng.choice([0, n - h, (n - h) // 2, rng.randint(0, n - h)])
    return h, b


def image_states(M, images, h, b, what, det):
    out = []
    for im in images:
        im = list(im)
        st = m.to_state(im, h, b)
        M.check(st is not None and m.canonical(im, h, b), "%s returned a list that is not a determinant of the basis" % what, det, im)
        out.append(st)
    return out


def same_images(M, got, exp, what, L, det):
    g, e = counts(got), counts(exp)
    if g != e:
        d = {k: (g.get(k, 0), e.get(k, 0)) for k in set(g) | set(e) if g.get(k, 0) != e.get(k, 0)}
        M.check(False, "%s: wrong images on %s W=%d H=%d" % (what, L.kind, L.W, L.H), "determinant %s" % det,
                "state: (times returned, times expected) %s" % d)
    M.check(True, what)


# computations, files ----------------------------------------------------------------------------------------------------

emb, pP = Guard("embedding"), Guard("postProcessing")


def heard(fn, *a, **k):
    """Runs fn; its result and, for every diagonalisation it announced on the screen, whether it announced convergence."""
    import io, re, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn(*a, **k)
    return r, [x.startswith("Norm") for x in re.findall("Norm of residues|could not converge", out.getvalue())]


def disguised(rng, x):
    """An array equal to x in another layout: a column or rows of a larger array, column-major, read-only, or of integers where x has nothing else."""
    r = rng.random()
    if r < .4: return x.copy()
    if r < .5:
        x = x.copy()
        x.flags.writeable = False
        return x
    if r < .7 and not np.iscomplexobj(x) and (x == np.rint(x)).all() and np.abs(x).max(initial=0) < 1e6: return x.astype(int)
    if r < .8: return np.asfortranarray(x)
    if x.ndim == 1: return np.repeat(x, 2)[::2]
    wide = np.full((2 * x.shape[0], 2 * x.shape[1] + 1), 7.25, dtype=x.dtype)
    wide[::2, 1::2] = x
    return wide[::2, 1::2]


class Solves:
    """Observes the matrices given to the eigensolver of the repository and the eigenpairs it returns."""
    def __enter__(self):
        self.mod, self.seen = dav.mod, []
        self.real = real = self.mod.modified_davidson_algorithm

        def solver(*a, **k):
            r = real(*a, **k)
            A = a[0] if a else k.get("A")
            if A is not None: self.seen.append((np.asarray(A.toarray() if hasattr(A, "toarray") else A), np.array(r.eigvals, float), np.array(r.eigvects)))
            return r
        self.mod.modified_davidson_algorithm = solver
        return self.seen

    def __exit__(self, *a):
        self.mod.modified_davidson_algorithm = self.real


class Scratch:
    """A private working directory holding the folders the repository writes to; removed on exit."""
    def __init__(self, *subs):
        self.subs = ("initialComputations",) + subs

    def __enter__(self):
        import os, tempfile
        self.back = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="case-", dir=self.back)
        os.chdir(self.path)
        for s in self.subs:
            os.makedirs(s, exist_ok=True)
        return self

    def __exit__(self, *a):
        import os, shutil
        os.chdir(self.back)
        shutil.rmtree(self.path, ignore_errors=True)

    def files(self, root="initialComputations"):
        import os
        return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)

    def written(self, fn, *a, root="initialComputations", **k):
        """Result of the call and the files it wrote (created, replaced or rewritten)."""
        import os
        old = {}
        for f in self.files(root):
            p = os.path.join(root, f)
            os.utime(p, ns=(10 ** 9, 10 ** 9))
            old[f] = os.stat(p).st_ino
        r = fn(*a, **k)
        out = []
        for f in self.files(root):
            st = os.stat(os.path.join(root, f))
            if f not in old or st.st_mtime_ns != 10 ** 9 or st.st_ino != old[f]:
                out.append(f)
        return r, out


def num(x):
    if x is None or isinstance(x, (str, bool)): return x
    if isinstance(x, (bool, np.bool_)): return bool(x)
    return float(x).hex()


def arr(a):
    a = np.asarray(a)
    return (tuple(a.shape), tuple(num(v) for v in a.reshape(-1).tolist()))


def snap_config(c):
    d = {k: num(getattr(c, k)) for k in ("nsites", "nholes", "nbeta", "nalpha", "spin_number", "doping", "nb_conf", "lattice_type", "nbh", "nbv", "nblocs_side")}
    d["bond_matrix"] = arr(c.bond_matrix)
    d["sites_restriction"] = tuple(tuple(int(s) for s in part) for part in c.sites_restriction)
    d["pair"] = isinstance(c.sites_restriction, tuple)
    return d


SWITCHES = m.TERMS + ("bV_embedding", "b_spin_multipicities")

def snap(d, times=True):
    """Everything a computation consists of, comparable bit for bit (without the starting vector of the eigensolver)."""
    out = dict(configuration=snap_config(d.data.configuration),
               interactions={k: num(getattr(d.data.interactions, k)) for k in m.COUPLINGS},
               diagonalization={k: num(getattr(d.data.diagonalization, k)) for k in ("nb_val", "stp", "tol", "dim_max")},
               switches={k: num(getattr(d.data.bool_interactions, k)) for k in SWITCHES},
               determinants=tuple(tuple(int(s) for s in x) for x in d.determinants),
               hamiltonian=(tuple(d.hamiltonian.shape), arr(d.hamiltonian.data), arr(d.hamiltonian.indices), arr(d.hamiltonian.indptr)),
               eigvals=tuple(num(x) for x in d.eigenstates.eigvals), spins=tuple(num(x) for x in d.eigenstates.spins),
               eigvects=arr(d.eigenstates.eigvects))
    if times:
        out["times"] = None if d.times is None else {k: num(getattr(d.times, k)) for k in ("tbasis", "thamiltonian", "teigenstates")}
    return out


def same_snap(M, got, exp, what):
    for k in exp:
        if got.get(k) != exp[k]:
            sub = [j for j in exp[k] if got[k].get(j) != exp[k][j]] if isinstance(exp[k], dict) and isinstance(got.get(k), dict) else ""
            M.check(False, "%s: %s %s differs" % (what, k, sub), "got %r" % (got.get(k) if not sub else {j: got[k].get(j) for j in sub},),
                    "expected %r" % (exp[k] if not sub else {j: exp[k][j] for j in sub},))
    M.check(True, what)


# embeddings -------------------------------------------------------------------------------------------------------------

def stored_computation(cfg, A, c, terms, vects, vals, dg, **kw):
    """A stored result with the given dense Hamiltonian and eigenvectors."""
    import scipy.sparse as sp
    data = iC.Data(cfg, itr.Interactions(**c), dg, switches(terms, **kw))
    dets = [m.to_det(x) for x in m.states(cfg.nsites, cfg.nholes, cfg.nbeta)]
    return iC.DataComputations(data, dets, sp.csr_matrix(A), dav.Eigenstates([float(x) for x in vals], [], np.array(vects, float)), iC.Times(0., 0., 0.))


def mean_field(states_, c, pairs, diagonals, prob):
    """Energy of every state in the field of foreign sites with probabilities prob[0|1|-1][site]."""
    out = []
    for s in states_:
        e = 0.0
        for a, f in pairs:
            if s[a] == 0: e += c["VNN"] * prob[0][f]
            else: e += -c["J"] / 2 * prob[-s[a]][f]
        for a, f in diagonals:
            if s[a] == 0: e += c["VNNNper"] * prob[0][f]
        out.append(e)
    return np.array(out)
